package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- reference model ----
//
// A small interpreter of the same grammars, written from the documentation: no
// parse stack, no wipe masks, values which are never shared or changed. It
// predicts the value of a parse, the outcome of the injected faults and the
// arguments given to the parse functions.

type val struct {
	k    byte // 's' string 'a' array 'm' map 'u' undefined 't' tag 'i' int
	s    string
	a    []*val
	keys []string
	n    int
	h    uint64
}

var undef = &val{k: 'u'}

func (v *val) hash() uint64 {
	if v.h != 0 {
		return v.h
	}
	switch v.k {
	case 's':
		v.h = hStr(v.s)
	case 'u':
		v.h = hUndef
	case 'a':
		h := hArr0
		for _, x := range v.a {
			h = mix(h, x.hash())
		}
		v.h = h
	case 'm':
		h := hMap0
		for i, k := range v.keys {
			h = mix(mix(h, hashStr(k)), v.a[i].hash())
		}
		v.h = h
	case 't':
		v.h = hTag(v.s, v.a[0].hash())
	case 'i':
		v.h = hInt(uint64(v.n))
	}
	return v.h
}

const (
	hUndef = uint64(0x51ed27)
	hArr0  = uint64(0xa77a11)
	hMap0  = uint64(0x3a9b3a)
	hNil   = uint64(0x11)
)

func hInt(n uint64) uint64               { return mix(0x1117, n) }
func hStr(s string) uint64               { return mix(0x57f1, hashStr(s)) }
func hTag(rule string, in uint64) uint64 { return mix(mix(0x7a6, hashStr(rule)), in) }

func (v *val) dump(b *strings.Builder) {
	switch v.k {
	case 's':
		fmt.Fprintf(b, "%q", v.s)
	case 'u':
		b.WriteString("_")
	case 'a':
		b.WriteString("[")
		for i, x := range v.a {
			if i > 0 {
				b.WriteString(",")
			}
			x.dump(b)
		}
		b.WriteString("]")
	case 'm':
		b.WriteString("{")
		for i, k := range v.keys {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(k + ":")
			v.a[i].dump(b)
		}
		b.WriteString("}")
	case 't':
		b.WriteString("<" + v.s + " ")
		v.a[0].dump(b)
		b.WriteString(">")
	case 'i':
		fmt.Fprintf(b, "#%d", v.n)
	}
}

// native: made of native values only
func (v *val) native() bool {
	for _, x := range v.a {
		if !x.native() {
			return false
		}
	}
	return v.k != 't'
}

// concat is what the Concat methods of arrays and maps give.
func (v *val) concat() string {
	switch v.k {
	case 's':
		return v.s
	case 'i':
		return strconv.Itoa(v.n)
	}
	s := ""
	for _, x := range v.a {
		if v.k == 'a' && x.k == 'm' {
			s += x.print()
		} else {
			s += x.concat()
		}
	}
	return s
}

// print is what the String methods give.
func (v *val) print() string {
	var a []string
	for i, x := range v.a {
		s := x.print()
		if v.k == 'm' {
			s = v.keys[i] + ":" + s
		}
		a = append(a, s)
	}
	switch v.k {
	case 'a':
		return "[" + strings.Join(a, ",") + "]"
	case 'm':
		return "NativeMap{" + strings.Join(a, ", ") + "}"
	case 'u':
		return "<NativeUndefined>"
	}
	return v.concat()
}

func (v *val) String() string {
	if v == nil {
		return "nil"
	}
	var b strings.Builder
	v.dump(&b)
	return b.String()
}

func (v *val) isUndef() bool { return v == nil || v.k == 'u' }

// set returns a map with k set.
func (v *val) set(k string, x *val) *val {
	n := &val{k: 'm'}
	if v != nil && v.k == 'm' {
		n.keys = append(n.keys, v.keys...)
		n.a = append(n.a, v.a...)
	}
	for i, kk := range n.keys {
		if kk == k {
			n.a[i] = x
			return n
		}
	}
	n.keys = append(n.keys, k)
	n.a = append(n.a, x)
	return n
}

type mnode struct {
	op       string
	s        string
	re       *regexp.Regexp
	k        []*mnode
	label    string
	min, max int
	capture  bool
	labels   []string
	caps     int
	isRule   bool
	rank     bool
	id       int
	name     string
	cb       int
	mode     string
	parent   *mnode
	prepared bool
	r        *Rule
}

type mgram struct {
	rules map[string]*mnode
	top   *mnode
	nr    int
	g     *GSpec
	gi    int
	nodes int
}

func newMGram(g *GSpec, gi int) *mgram {
	m := &mgram{rules: map[string]*mnode{}, g: g, gi: gi}
	m.top = m.rankOf(g.Rules, g.Name)
	m.prep(m.top)
	for _, n := range m.rules {
		m.prep(n)
	}
	var chk func(n *mnode)
	seen := map[*mnode]bool{}
	chk = func(n *mnode) {
		if seen[n] {
			return
		}
		seen[n] = true
		m.nodes++
		n.calcLabels(m)
		for _, k := range n.k {
			chk(k)
		}
	}
	chk(m.top)
	for _, n := range m.rules {
		chk(n)
	}
	return m
}

func (m *mgram) rankOf(rs []*Rule, name string) *mnode {
	n := &mnode{op: "alt", rank: true, capture: true}
	idx := 0
	for _, r := range rs {
		rn := r.Name
		if r.O {
			if rn == "" {
				rn = fmt.Sprintf("%s[%d]", name, idx)
			}
			idx++
		}
		c := m.ruleOf(r, rn)
		c.parent = n
		if r.O {
			n.k = append(n.k, c)
		}
	}
	return n
}

func (m *mgram) ruleOf(r *Rule, name string) *mnode {
	var n *mnode
	if r.Sub != nil {
		n = m.rankOf(r.Sub, name)
	} else {
		n = m.expr(r.Body)
	}
	n.isRule = true
	n.name = name
	n.cb = r.CB
	n.mode = r.Mode
	n.id = m.nr
	n.r = r
	m.nr++
	m.rules[name] = n
	return n
}

func (m *mgram) expr(e *Expr) *mnode {
	n := &mnode{op: e.Op, s: e.S, label: e.Label, capture: true, min: -1, max: -1}
	switch e.Op {
	case "str":
		n.capture = false
	case "cls":
		n.op = "re"
		n.re = regexp.MustCompile("^([" + e.S + "])")
	case "re":
		n.re = regexp.MustCompile("^(" + e.S + ")")
	case "ref":
		n.capture = !strings.HasPrefix(e.S, "_")
	case "not", "look":
		n.capture = false
	}
	for _, k := range e.K {
		c := m.expr(k)
		c.parent = n
		n.k = append(n.k, c)
	}
	if e.Op == "rep" {
		n.capture = n.k[0].capture
		if e.Plus {
			n.min = 1
		} else {
			n.min, n.max = e.Min, e.Max
		}
	}
	return n
}

func (m *mgram) prep(n *mnode) {
	if n.prepared {
		return
	}
	n.prepared = true
	for _, k := range n.k {
		m.prep(k)
	}
	switch n.op {
	case "alt":
		n.capture = true
		for _, k := range n.k {
			if !k.capture {
				n.capture = false
			}
		}
	case "opt":
		n.capture = n.k[0].captures() > 0
		if len(n.calcLabels(m)) > 0 && n.label == "" {
			n.label = "@"
		}
	}
}

func (n *mnode) captures() int {
	switch n.op {
	case "seq":
		c := 0
		for _, k := range n.k {
			c += k.captures()
		}
		return c
	case "opt":
		return n.k[0].captures()
	}
	if n.capture {
		return 1
	}
	return 0
}

func (n *mnode) calcLabels(m *mgram) []string {
	switch n.op {
	case "seq":
		var a []string
		for _, k := range n.k {
			a = append(a, k.calcLabels(m)...)
		}
		return a
	case "opt":
		if n.label != "" && n.label != "@" && n.label != "&" {
			return []string{n.label}
		}
		return n.k[0].calcLabels(m)
	case "ref":
		if n.label == "@" {
			if x := m.rules[n.s]; x != nil && x != n {
				return x.calcLabels(m)
			}
			return []string{"@"}
		}
	}
	if n.label != "" {
		return []string{n.label}
	}
	return nil
}

func (n *mnode) handlesChildLabel() bool {
	switch n.op {
	case "seq":
		return true
	case "opt":
		return n.parent != nil && n.parent.handlesChildLabel()
	}
	return false
}

// ---- evaluation ----

type mkey struct{ id, pos int }

type mseed struct {
	v    *val
	end  int
	used bool
	idx  int
}

type mmemo struct {
	v   *val
	end int
}

type mstop struct {
	kind string
	arg  string
}

type cbRec struct {
	rule string
	in   uint64
	e    int
}

type mrun struct {
	g       *mgram
	text    string
	pos     int
	fuel    int
	seeds   map[mkey]*mseed
	depth   int
	memo    map[mkey]mmemo
	low     int
	faults  *faultSet
	op      int
	cbs     map[cbRec]bool
	evals   int
	level   int
	maxLvl  int
	growth  int
	from    map[cbRec]int // where the rule was tried: the last of these places
	rejects int
	back    bool // moved back to before the start of a rule
}

const inf = 1 << 30

type mres struct {
	kind string // ok nil perr panic goexit fuel
	v    *val
	arg  string
	cbs  map[cbRec]bool
	from map[cbRec]int
	ev   int
	lvl  int
	grow int
}

func (r mres) String() string {
	switch r.kind {
	case "ok":
		return "ok " + r.v.String()
	case "panic":
		return "panic " + r.arg
	}
	return r.kind
}

func (m *mgram) parse(text string, op int, fs *faultSet, fuel int) (res mres) {
	r := &mrun{g: m, text: text, fuel: fuel, seeds: map[mkey]*mseed{}, memo: map[mkey]mmemo{}, low: inf, faults: fs, op: op, cbs: map[cbRec]bool{}, from: map[cbRec]int{}}
	defer func() {
		res.cbs, res.from = r.cbs, r.from
		res.ev = r.evals
		res.lvl = r.maxLvl
		res.grow = r.growth
		if x := recover(); x != nil {
			st, ok := x.(mstop)
			if !ok {
				panic(x)
			}
			res.kind, res.arg = st.kind, st.arg
		}
	}()
	v := r.eval(m.top)
	switch {
	case r.pos != len(text):
		res.kind = "perr"
	case v == nil:
		res.kind = "nil"
	default:
		res.kind, res.v = "ok", v
	}
	return
}

func (r *mrun) eval(n *mnode) *val {
	r.fuel--
	r.evals++
	if r.fuel < 0 {
		panic(mstop{kind: "fuel"})
	}
	r.level++
	if r.level > r.maxLvl {
		r.maxLvl = r.level
		if r.level > 60000 {
			panic(mstop{kind: "fuel"})
		}
	}
	defer func() { r.level-- }()
	if n.isRule {
		return r.rule(n)
	}
	v := r.raw(n)
	return r.standalone(n, v)
}

func (r *mrun) standalone(n *mnode, v *val) *val {
	if v != nil && n.label != "" && n.parent != nil && !n.parent.handlesChildLabel() {
		return (*val)(nil).set(n.label, v)
	}
	return v
}

func (r *mrun) rule(n *mnode) *val {
	if n.r != nil && n.r.SkipCache {
		return r.body(n)
	}
	start := r.pos
	key := mkey{n.id, start}
	if sd := r.seeds[key]; sd != nil {
		if r.back { // a move back may have made it
			panic(mstop{kind: "fuel"})
		}
		sd.used = true
		if sd.idx < r.low {
			r.low = sd.idx
		}
		if sd.end >= 0 {
			r.pos = sd.end
		}
		return sd.v
	}
	if me, ok := r.memo[key]; ok {
		r.pos = me.end
		return me.v
	}
	outer := r.low
	r.low = inf
	sd := &mseed{end: -1, idx: r.depth}
	r.depth++
	r.seeds[key] = sd
	v := r.body(n)
	if sd.used && v != nil {
		for {
			best, end := v, r.pos
			sd.v, sd.end = best, end
			r.pos = start
			r.growth++
			v = r.body(n)
			if r.back {
				panic(mstop{kind: "fuel"})
			}
			if v == nil || r.pos <= end {
				v = best
				r.pos = end
				break
			}
		}
	}
	delete(r.seeds, key)
	r.depth--
	if r.low >= sd.idx {
		r.memo[key] = mmemo{v, r.pos}
		r.low = outer
	} else if outer < r.low {
		r.low = outer
	}
	return v
}

func (r *mrun) body(n *mnode) *val {
	start := r.pos
	v := r.standalone(n, r.raw(n))
	if v == nil || n.cb == 0 {
		return v
	}
	e := r.pos
	if n.cb == 1 {
		e = -1
	}
	in := v.hash()
	c := cbRec{n.name, in, e}
	r.cbs[c] = true
	if at, ok := r.from[c]; !ok || at < start {
		r.from[c] = start
	}
	if f := r.faults.find(r.op, r.g.gi, n.name, in, e); f != nil {
		switch f.K {
		case "reject":
			return nil
		case "rejmove":
			r.pos = moved(r.text, r.pos, f)
			return nil
		case "move":
			r.pos = moved(r.text, r.pos, f)
			// to before the rule's own start: not something the properties
			// speak of with left recursive rules
			r.back = r.back || r.pos < start
		case "panic":
			panic(mstop{"panic", f.panicText()})
		case "goexit":
			panic(mstop{kind: "goexit"})
		}
	}
	return cbValue(n.mode, n.name, v)
}

func cbValue(mode, rule string, v *val) *val {
	switch mode {
	case "tag", "note":
		return &val{k: 't', s: rule, a: []*val{v}}
	case "str":
		return &val{k: 's', s: strOf(rule, v.hash())}
	case "empty":
		return &val{k: 'm'}
	case "map":
		return &val{k: 'm', keys: []string{"m"}, a: []*val{v}}
	case "int":
		return &val{k: 'i', n: int(v.hash() & 0xfff)}
	case "text":
		if (v.k == 'a' || v.k == 'm') && v.native() {
			return &val{k: 's', s: v.concat()}
		}
	case "print":
		if v.native() {
			return &val{k: 's', s: v.print()}
		}
	}
	return v
}

func strOf(rule string, h uint64) string { return fmt.Sprintf("%s~%04x", rule, h&0xffff) }

func moved(text string, pos int, f *Fault) int {
	switch {
	case f.Text != "":
		if i := strings.Index(text[pos:], f.Text); i >= 0 {
			return pos + i + len(f.Text)
		}
		return len(text)
	case f.N < 0:
		for n := f.N; n < 0 && pos > 0; n++ {
			_, w := utf8.DecodeLastRuneInString(text[:pos])
			pos -= w
		}
		return pos
	}
	return moveRunes(text, pos, f.N)
}

func moveRunes(text string, pos, n int) int {
	for ; n > 0 && pos < len(text); n-- {
		_, w := utf8.DecodeRuneInString(text[pos:])
		pos += w
	}
	return pos
}

func (r *mrun) raw(n *mnode) *val {
	switch n.op {
	case "str":
		if strings.HasPrefix(r.text[r.pos:], n.s) {
			r.pos += len(n.s)
			return &val{k: 's', s: n.s}
		}
		return nil
	case "re":
		if m := n.re.FindString(r.text[r.pos:]); m != "" {
			r.pos += len(m)
			return &val{k: 's', s: m}
		}
		return nil
	case "ref":
		t := r.g.rules[n.s]
		if t == nil {
			panic(mstop{"panic", "undefined ref " + n.s})
		}
		return r.eval(t)
	case "seq":
		return r.seq(n)
	case "alt":
		for _, k := range n.k {
			p := r.pos
			if v := r.eval(k); v != nil {
				return v
			}
			r.pos = p
		}
		return nil
	case "opt":
		p := r.pos
		if v := r.eval(n.k[0]); v != nil {
			return v
		}
		r.pos = p
		return undef
	case "not":
		p := r.pos
		v := r.eval(n.k[0])
		r.pos = p
		if v != nil {
			return nil
		}
		return undef
	case "look":
		p := r.pos
		v := r.eval(n.k[0])
		r.pos = p
		return v
	case "rep":
		return r.rep(n)
	}
	panic("op " + n.op)
}

func (r *mrun) rep(n *mnode) *val {
	out := &val{k: 'a'}
	start := r.pos
	for n.max < 0 || len(out.a) < n.max {
		p := r.pos
		if len(out.a) > 0 && len(n.k) > 1 {
			if r.eval(n.k[1]) == nil {
				r.pos = p
				break
			}
		}
		v := r.eval(n.k[0])
		if v == nil {
			r.pos = p
			break
		}
		if len(out.a) > 0 && n.max < 0 && len(out.a) >= n.min && r.pos <= p {
			break
		}
		out.a = append(out.a, v)
	}
	if len(out.a) < n.min {
		r.pos = start
		return nil
	}
	return out
}

func (r *mrun) seq(n *mnode) *val {
	labels := n.labelsOf(r.g)
	ncap := n.captures()
	var obj, single *val
	var arr []*val
	for _, k := range n.k {
		v := r.eval(k)
		if v == nil {
			return nil
		}
		if k.capture {
			single = v
			arr = append(arr, v)
		}
		if len(labels) == 0 {
			continue
		}
		switch k.label {
		case "":
		case "&":
			if obj.isUndef() {
				obj = v
			} else {
				// the child's map, extended with what there was
				o := v
				for i, kk := range obj.keys {
					o = o.set(kk, obj.a[i])
				}
				obj = o
			}
		case "@":
			if obj.isUndef() {
				obj = v
			} else if v.k == 'm' {
				for i, kk := range v.keys {
					obj = obj.set(kk, v.a[i])
				}
			}
		default:
			if obj.isUndef() {
				obj = nil
			}
			obj = obj.set(k.label, v)
		}
	}
	switch {
	case len(labels) > 0:
		if obj == nil {
			return undef
		}
		return obj
	case ncap > 1:
		return &val{k: 'a', a: arr}
	case single == nil:
		return undef
	}
	return single
}

func (n *mnode) labelsOf(m *mgram) []string {
	if n.labels == nil {
		n.labels = n.calcLabels(m)
		if n.labels == nil {
			n.labels = []string{}
		}
	}
	return n.labels
}
