package main

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	rt "github.com/grepsuzette/joeson/verifrt"
)

// ---- scenarios ----

type TraceSpec struct {
	Stack     bool `json:"stack,omitempty"`
	Loop      bool `json:"loop,omitempty"`
	Grammar   bool `json:"grammar,omitempty"`
	Line      int  `json:"line"`
	SkipSetup bool `json:"skipsetup,omitempty"`
	Share     int  `json:"share,omitempty"` // the options value number Share-1 is used by several grammars
}

func (t *TraceSpec) opts() *j.TraceOptions {
	if t == nil {
		return j.Mute()
	}
	return &j.TraceOptions{Stack: t.Stack, Loop: t.Loop, Grammar: t.Grammar, FilterLine: t.Line, SkipSetup: t.SkipSetup}
}

// Op is one operation of a task.
//
//	compile  compile grammar G into Slot
//	parse    parse Text with the grammar in Slot
//	tokens   the same, as a token stream cut at random places
//	stream   parse token stream number Stream, after rewinding it
//	gocode   tokenize Text as Go code
//	bomb     destroy the compiler grammar number Slot
//	setenv   set TRACE to Text
//	sleep    N simulated milliseconds
//	mutate   modify the value returned by operation N
type Op struct {
	ID      int        `json:"id"`
	Kind    string     `json:"kind"`
	Slot    int        `json:"slot,omitempty"`
	G       int        `json:"g,omitempty"`
	Text    string     `json:"text,omitempty"`
	Bytes   []byte     `json:"bytes,omitempty"` // when Text is not UTF-8
	N       int        `json:"n,omitempty"`
	Debug   bool       `json:"debug,omitempty"`
	SkipLog bool       `json:"skiplog,omitempty"`
	Trace   *TraceSpec `json:"trace,omitempty"`
	EnvTr   bool       `json:"envtr,omitempty"` // compile with the options from the environment
	Out     string     `json:"out,omitempty"`   // fault of stdout: fail, short, flaky
	Lines   int        `json:"lines,omitempty"` // compile from shared lines number Lines-1
	Lazy    string     `json:"lazy,omitempty"`  // compiler grammar: own:K shared, once-panic:K
	Fail    string     `json:"fail,omitempty"`  // compile: which fault
	Stream  int        `json:"stream,omitempty"`
	Cut     uint64     `json:"cut,omitempty"`
	Deep    int        `json:"deep,omitempty"`  // of a nested parse: at its first call, it makes another, of this less one
	Times   int        `json:"times,omitempty"` // how often the same is done before; only the last one is compared
}

func (o *Op) text() string {
	if o.Bytes != nil {
		return string(o.Bytes)
	}
	return o.Text
}

// Fault: what a parse function does when it is given this input.
type Fault struct {
	Op   int    `json:"op"`
	G    int    `json:"g"`
	Rule string `json:"rule"`
	In   uint64 `json:"in"`
	E    int    `json:"e"`
	K    string `json:"k"` // reject rejmove move panic goexit stall nested
	N    int    `json:"n,omitempty"`
	Slot int    `json:"slot,omitempty"`
	Text string `json:"text,omitempty"`
	// nested: the parse makes another at its first call, which makes another...
	Deep int `json:"deep,omitempty"`
	// any call of the rule ("": of every rule) instead of one: those which a hash
	// of the call and N chooses, this many of a hundred
	Any int `json:"any,omitempty"`
}

var panicKinds = []string{"parseerror", "error", "string", "pointer", "runtime", "ast", "number", "stringer"}

type textPanic string

func (p textPanic) String() string { return string(p) }

func (f *Fault) panicText() string { return panicKinds[f.N%len(panicKinds)] }

type fkey struct {
	op, g int
	rule  string
	in    uint64
	e     int
}

type faultSet struct {
	m    map[fkey]*Fault
	g    map[int]bool // operations with a goexit
	wide []*Fault
}

func newFaultSet(fs []Fault) *faultSet {
	s := &faultSet{m: map[fkey]*Fault{}, g: map[int]bool{}}
	for i := range fs {
		f := &fs[i]
		if f.Any > 0 {
			s.wide = append(s.wide, f)
			continue
		}
		k := fkey{f.Op, f.G, f.Rule, f.In, f.E}
		if s.m[k] == nil {
			s.m[k] = f
		}
		if f.K == "goexit" {
			s.g[f.Op] = true
		}
	}
	return s
}

func (s *faultSet) find(op, g int, rule string, in uint64, e int) *Fault {
	if s == nil {
		return nil
	}
	if f := s.m[fkey{op, g, rule, in, e}]; f != nil || len(s.wide) == 0 {
		return f
	}
	for _, f := range s.wide {
		if e < 0 && f.K != "reject" {
			continue // not given the context
		}
		if f.Op == op && f.G == g && (f.Rule == rule || f.Rule == "") && int(newRng(in, uint64(e), uint64(f.N)).u64()%100) < f.Any {
			return f
		}
	}
	return nil
}

type StreamSpec struct {
	Orig   string   `json:"orig"`
	Tokens []string `json:"tokens,omitempty"`
	Go     bool     `json:"go,omitempty"` // the tokens of Go code
}

type Scenario struct {
	Prop    string       `json:"prop"`
	Kind    string       `json:"kind,omitempty"`
	Gs      []*GSpec     `json:"grammars,omitempty"`
	Setup   []Op         `json:"setup,omitempty"`
	Tasks   [][]Op       `json:"tasks,omitempty"`
	Faults  []Fault      `json:"faults,omitempty"`
	Streams []StreamSpec `json:"streams,omitempty"`
	MapSeed uint64       `json:"mapseed,omitempty"`
	Sched   Sched        `json:"sched"`
	Lazy    *LazyScn     `json:"lazyval,omitempty"`
	Repl    *ReplScn     `json:"repl,omitempty"`
	Aux     uint64       `json:"aux,omitempty"`
}

// ---- values ----

// Tag is the value returned by parse functions in mode "tag".
type Tag struct {
	*j.Attr
	Rule string
	It   j.Ast
	Note j.Ast // an error which is kept, in mode "note"
	h    uint64
}

func (t *Tag) String() string { return "<" + t.Rule + " " + t.It.String() + ">" }

func hashAst(a j.Ast) uint64 {
	switch v := a.(type) {
	case nil:
		return hNil
	case j.NativeString:
		return hStr(string(v))
	case j.NativeUndefined:
		return hUndef
	case *j.NativeArray:
		h := hArr0
		for _, x := range *v {
			h = mix(h, hashAst(x))
		}
		return h
	case *j.NativeMap:
		h := hMap0
		for _, k := range v.Keys() {
			h = mix(mix(h, hashStr(k)), hashAst(v.Get(k)))
		}
		return h
	case *Tag:
		return v.h
	case j.NativeInt:
		return hInt(uint64(v))
	}
	return mix(0xbad, hashStr(fmt.Sprintf("%T", a)))
}

type dumper struct {
	b      strings.Builder
	origin bool
	ptrs   map[any]bool
}

func (d *dumper) org(a j.Ast) {
	if d.origin {
		o := a.GetOrigin()
		fmt.Fprintf(&d.b, "@%d-%d/%d/%x", o.Start, o.End, o.Line, hashStr(o.Code)&0xffff)
	}
}

func (d *dumper) dump(a j.Ast) {
	b := &d.b
	switch v := a.(type) {
	case nil:
		b.WriteString("nil")
	case j.NativeString:
		fmt.Fprintf(b, "%q", string(v))
	case j.NativeInt:
		fmt.Fprintf(b, "#%d", int(v))
	case j.NativeUndefined:
		d.ptr(v.Attr)
		b.WriteString("_")
		d.org(v)
	case *j.NativeArray:
		d.ptr(v)
		b.WriteString("[")
		for i, x := range *v {
			if i > 0 {
				b.WriteString(",")
			}
			d.dump(x)
		}
		b.WriteString("]")
	case *j.NativeMap:
		d.ptr(v)
		b.WriteString("{")
		for i, k := range v.Keys() {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(k + ":")
			d.dump(v.Get(k))
		}
		b.WriteString("}")
		d.org(v)
	case *Tag:
		d.ptr(v)
		b.WriteString("<" + v.Rule + " ")
		d.dump(v.It)
		b.WriteString(">")
		if d.origin && v.Note != nil {
			b.WriteString("!")
			d.dump(v.Note)
		}
		d.org(v)
	case j.ParseError:
		d.ptr(v.Attr)
		b.WriteString("ParseError(" + v.ErrorString + ")")
		d.org(v)
	default:
		fmt.Fprintf(b, "?%T:%s", a, a.String())
	}
}

func (d *dumper) ptr(p any) {
	if d.ptrs != nil {
		d.ptrs[p] = true
	}
}

func dumpAst(a j.Ast, origin bool) string {
	d := &dumper{origin: origin}
	d.dump(a)
	return d.b.String()
}

// ---- execution ----

type Event struct {
	Rule string
	In   uint64
	E    int
	Act  string
	Look uint64 // what the parse function saw around the position, 0 when it did not look
}

type OpRes struct {
	Op       *Op
	Ran      bool
	Odd      string // how the repetitions (Op.Times) differ
	Canon    string // kind and value: what the model predicts
	Head     string // with the origins or the error message
	Now      string // the same after its receiver modified it
	Full     string // with the origins or the error message, and the calls
	Out      string // what was printed
	Log      []Event
	Ast      j.Ast
	Steps    uint64
	Work     uint64 // bytes and elements gone through by the standard library (when measured)
	ReReads  uint64 // runes read by regular expressions (when measured)
	ReEvals  uint64
	Sent     any // what the parse function panicked with
	SentAt   int
	Nested   []*OpRes
	Aborted  bool
	Marks    map[string]int
	Inputs   []j.Ast
	Notes    []note // the errors which were made and kept
	parent   *OpRes
	isNested bool

	GoProblem string // of a tokenization
}

type taskState struct {
	cur   *OpRes
	w     *World
	buf   strings.Builder
	n     int
	fired map[string]int
}

func (w *World) fire(k string) {
	if id := rt.TaskID(); id >= 0 && id < len(w.tasks) {
		w.tasks[id].fired[k]++
	}
}

// Write is the stdout of the task: it can fail, and what it is given goes to
// the operation in progress.
func (t *taskState) Write(p []byte) (int, error) {
	t.n++
	r := t.cur
	mode := ""
	if r != nil && r.Op != nil {
		mode = r.Op.Out
	}
	if t.w != nil {
		t.w.outWrites++
	}
	switch mode {
	case "fail":
		t.w.outFaults++
		return 0, errNoSpace
	case "short":
		t.w.outFaults++
		return len(p) / 2, io.ErrShortWrite
	case "flaky":
		if t.n%3 == 0 {
			t.w.outFaults++
			return 0, errNoSpace
		}
	}
	if r != nil && t.buf.Len() < 1<<20 {
		t.buf.Write(p)
	}
	return len(p), nil
}

var keepInputs bool

type note struct {
	err j.Ast
	was string
}

func (n note) now() string { return n.err.String() + fmt.Sprint(n.err.GetOrigin()) }

var errNoSpace = errors.New("write /dev/stdout: no space left on device")

type World struct {
	sc        *Scenario
	gm        []*j.Grammar
	slotG     []int
	lines     [][]j.Line // shared by compilations
	compilers []*j.Grammar
	lazies    []*helpers.Lazy[*j.Grammar]
	streams   []*j.TokenStream
	faults    *faultSet
	tasks     []*taskState
	res       []*OpRes // by op id
	fired     map[string]int
	outWrites int
	outFaults int
	sim       rt.Result
	marks     bool
	budget    uint64
	before    func(*Op)
	traces    []*j.TraceOptions // shared by compilations
}

func (w *World) traceOpts(t *TraceSpec) *j.TraceOptions {
	if t == nil || t.Share == 0 {
		return t.opts()
	}
	return w.traces[t.Share-1]
}

const maxSlots = 64

func newWorld(sc *Scenario) *World {
	rt.Env = nil
	rt.Reset()
	w := &World{sc: sc, gm: make([]*j.Grammar, maxSlots), slotG: make([]int, maxSlots), lines: make([][]j.Line, maxSlots),
		compilers: make([]*j.Grammar, maxSlots), lazies: make([]*helpers.Lazy[*j.Grammar], maxSlots),
		traces: make([]*j.TraceOptions, maxSlots), faults: newFaultSet(sc.Faults), fired: map[string]int{}, budget: 8_000_000}
	if sc.Prop == "C09" {
		w.budget = 40_000_000
	}
	long := 0
	taskOps(sc, func(o *Op) { long = max(long, len(o.text())) })
	if long > 3000 {
		for _, g := range sc.Gs {
			w.budget = max(w.budget, 8_000_000+8*spread(g, long))
		}
	}
	w.streams = make([]*j.TokenStream, len(sc.Streams))
	last := 0
	all := append([][]Op{sc.Setup}, sc.Tasks...)
	for _, t := range all {
		for i := range t {
			o := &t[i]
			last = max(last, o.ID)
			if o.Kind == "compile" && o.Lines > 0 && w.lines[o.Lines-1] == nil {
				w.lines[o.Lines-1] = w.buildLines(o.G)
			}
			if o.Kind == "compile" && strings.HasPrefix(o.Lazy, "c") {
				w.lazy(o.Lazy)
			}
			if o.Trace != nil && o.Trace.Share > 0 && w.traces[o.Trace.Share-1] == nil {
				w.traces[o.Trace.Share-1] = o.Trace.opts()
			}
		}
	}
	w.res = make([]*OpRes, last+1)
	return w
}

func buildStream(s StreamSpec) *j.TokenStream {
	if s.Go {
		ts, err := j.TokenStreamFromGoCode(s.Orig)
		if err != nil {
			panic("go code of a stream: " + err.Error())
		}
		return ts
	}
	var ts []j.Token
	off, at := 0, 0
	for _, t := range s.Tokens {
		i := strings.Index(s.Orig[at:], t)
		o := at
		if i >= 0 {
			o = at + i
			at = o + len(t)
		}
		ts = append(ts, j.Token{Repr: t, OriginalOffset: o, WorkOffset: off})
		off += len(t)
	}
	return j.NewTokenStream(s.Orig, ts)
}

// buildLines makes the lines of a grammar, with its parse functions.
func (w *World) buildLines(gi int) []j.Line {
	g := w.sc.Gs[gi]
	return w.linesOf(g, gi, g.Rules, g.Name)
}

func (w *World) linesOf(g *GSpec, gi int, rs []*Rule, prefix string) []j.Line {
	var out []j.Line
	idx := 0
	for _, r := range rs {
		name := r.Name
		if r.O {
			if name == "" {
				name = fmt.Sprintf("%s[%d]", prefix, idx)
			}
			idx++
		}
		var args []any
		var body any
		if r.Sub != nil {
			body = w.linesOf(g, gi, r.Sub, name)
		} else {
			body = g.body(r)
			if g.wrapped(r) {
				body = j.O(body)
			}
		}
		if r.Name != "" {
			args = append(args, j.Named(r.Name, body))
		} else {
			args = append(args, body)
		}
		if r.CB > 0 {
			args = append(args, w.callback(gi, name, r.CB, r.Mode))
		} else if r.Marker {
			args = append(args, w.marker(name))
		}
		if r.SkipCache {
			args = append(args, j.SkipCache{Bool: true})
		}
		if r.Debug {
			args = append(args, j.Debug{Bool: true})
		}
		if r.SkipLog {
			args = append(args, j.SkipLog{Bool: true})
		}
		if n := len(args); n > 2 && g.Style&8 != 0 { // the options first
			args[1], args[n-1] = args[n-1], args[1]
		}
		if r.O {
			out = append(out, j.O(args...))
		} else {
			out = append(out, j.I(args...))
		}
	}
	if g.Raw != "" && prefix == g.Name {
		out = append(out, j.I(j.Named("zzz", g.Raw)))
	}
	return out
}

func (w *World) marker(name string) any {
	return func(it j.Ast, ctx *j.ParseContext) j.Ast {
		if op := w.op(); op != nil {
			if op.Marks == nil {
				op.Marks = map[string]int{}
			}
			op.Marks[fmt.Sprintf("%s@%d", name, ctx.Code.Pos())]++
		}
		return it
	}
}

func (w *World) callback(gi int, rule string, arity int, mode string) any {
	switch arity {
	case 1:
		return func(it j.Ast) j.Ast { return w.call(gi, rule, mode, it, nil) }
	case 2:
		return func(it j.Ast, ctx *j.ParseContext) j.Ast { return w.call(gi, rule, mode, it, ctx) }
	}
	return func(it j.Ast, ctx *j.ParseContext, caller j.Ast) j.Ast { return w.call(gi, rule, mode, it, ctx) }
}

func (w *World) op() *OpRes {
	id := rt.TaskID()
	if id < 0 || id >= len(w.tasks) {
		return nil
	}
	return w.tasks[id].cur
}

// moveStream moves the position in the way of f: N characters forwards or
// backwards, or after the next occurrence of Text.
func moveStream(code j.CodeStream, f *Fault) {
	p0 := code.Pos()
	switch {
	case f.Text != "":
		code.GetUntil(f.Text)
	case f.N < 0:
		code.SetPos(p0 - len(code.PeekRunes(f.N)))
	default:
		code.MatchRune(func(rune) bool { return false })
		switch p0 % 3 { // three ways to move
		case 1:
			code.MatchString(code.PeekRunes(f.N))
		case 2:
			code.MatchRegexp(*regexp.MustCompile("^(?s:.{0," + strconv.Itoa(helpers.Min(f.N, 900)) + "})"))
		}
		if code.Pos() == p0 {
			for i := 0; i < f.N; i++ {
				code.MatchRune(func(rune) bool { return true })
			}
		}
		p1 := code.Pos()
		code.SetPos(p0)
		code.SetPos(p1)
	}
}

// looks: the parse functions of this operation look around the position (not
// where steps are measured, and not in long texts)
func (w *World) looks(op *Op) bool {
	return w.sc.Prop != "C07" && w.sc.Prop != "C09" && op.ID%2 == 0 && len(op.text()) < 300
}

// lookAround: a summary of all that can be asked to a stream without moving
func lookAround(code j.CodeStream) uint64 {
	h := hashStr(code.PeekRunes(-3) + "|" + code.PeekRunes(4) + "|" + code.PeekLines(-1, 1) + "|" + code.PeekLines(0))
	h = mix(h, uint64(code.Line()))
	h = mix(h, uint64(code.Col()))
	h = mix(h, uint64(code.Length()))
	h = mix(h, hashStr(code.Print()))
	return h | 1
}

type customPanic struct{ n int }

// call is every parse function.
func (w *World) call(gi int, rule, mode string, it j.Ast, ctx *j.ParseContext) j.Ast {
	rt.Yield()
	op := w.op()
	if op == nil {
		return it
	}
	in := hashAst(it)
	e := -1
	if ctx != nil {
		e = ctx.Code.Pos()
	}
	id := op.Op.ID
	f := w.faults.find(id, gi, rule, in, e)
	if f == nil && op.Op.Deep > 0 && op.Nested == nil {
		f = &Fault{K: "nested", Slot: op.Op.Slot, Text: op.Op.Text, Deep: op.Op.Deep}
	}
	act := "."
	if f != nil {
		act = f.K
	}
	if len(op.Log) < 1<<20 {
		ev := Event{rule, in, e, act, 0}
		if ctx != nil && w.looks(op.Op) {
			ev.Look = lookAround(ctx.Code)
			if p := ctx.Code.Pos(); p != e && op.Odd == "" {
				op.Odd = fmt.Sprintf("moves from %d to %d by looking around", e, p)
				ctx.Code.SetPos(e)
			}
		}
		op.Log = append(op.Log, ev)
		if keepInputs {
			op.Inputs = append(op.Inputs, it)
		}
	}
	if f != nil {
		w.fire(f.K)
		switch f.K {
		case "reject":
			return nil
		case "rejmove", "move":
			if ctx != nil {
				moveStream(ctx.Code, f)
			}
			if f.K == "rejmove" {
				return nil
			}
		case "panic":
			var v any
			switch f.panicText() {
			case "parseerror":
				if ctx != nil {
					v = ctx.Error("boom")
				} else {
					v = j.NewParseError(nil, "boom")
				}
			case "error":
				v = errors.New("boom")
			case "string":
				v = "boom"
			case "pointer":
				v = &customPanic{id}
			case "ast":
				v = pick(newRng(uint64(id), 1), []any{j.NewNativeString("boom"), j.NewNativeInt(id), j.NewNativeUndefined(), j.NewEmptyNativeArray(), it})
				if v == nil || j.IsParseError(v.(j.Ast)) {
					v = j.NewNativeInt(7)
				}
			case "number":
				v = id - 3
			case "stringer":
				v = textPanic(fmt.Sprint("boom", id))
			case "runtime":
				op.Sent, op.SentAt = "runtime", len(op.Log)
				var m map[string]int
				m["boom"] = 1
			}
			op.Sent, op.SentAt = v, len(op.Log)
			panic(v)
		case "goexit":
			op.Sent, op.SentAt = "goexit", len(op.Log)
			runtime.Goexit()
		case "stall":
			rt.Sleep(time.Duration(f.N) * time.Millisecond)
		case "nested":
			w.nested(op, f)
		}
	}
	switch mode {
	case "tag":
		return &Tag{Attr: j.NewAttr(), Rule: rule, It: it, h: hTag(rule, in)}
	case "note":
		t := &Tag{Attr: j.NewAttr(), Rule: rule, It: it, h: hTag(rule, in)}
		t.Note = j.NewParseError(ctx, "note")
		if ctx != nil && in&1 > 0 {
			t.Note = ctx.Error("note of " + rule)
		}
		t.Note.SetOrigin(j.Origin{Start: e, Line: int(in & 0xffff)})
		if keepInputs {
			n := note{err: t.Note}
			n.was = n.now()
			op.Notes = append(op.Notes, n)
		}
		return t
	case "str":
		return j.NewNativeString(strOf(rule, in))
	case "empty":
		return j.NewEmptyNativeMap()
	case "map":
		m := j.NewEmptyNativeMap()
		m.Set("m", it)
		return m
	case "int":
		return j.NewNativeInt(int(in & 0xfff))
	case "text":
		if !native(it) {
			break
		}
		switch v := it.(type) {
		case *j.NativeArray:
			return v.Concat()
		case *j.NativeMap:
			return v.Concat()
		}
	case "print":
		if native(it) {
			return j.NewNativeString(it.String())
		}
	}
	return it
}

// native: made of native values only
func native(a j.Ast) bool {
	switch v := a.(type) {
	case *j.NativeArray:
		for _, x := range *v {
			if !native(x) {
				return false
			}
		}
	case *j.NativeMap:
		for _, k := range v.Keys() {
			if !native(v.Get(k)) {
				return false
			}
		}
	case j.NativeString, j.NativeUndefined, j.NativeInt:
	default:
		return false
	}
	return true
}

// Nested parses have operation numbers of their own, by level and grammar.
const nestedID = -1000

func nestedOp(level, slot int) int { return nestedID - level*maxSlots - slot }

func levelOf(id int) int {
	if id > nestedID {
		return 0
	}
	return (nestedID - id) / maxSlots
}

func (w *World) nested(op *OpRes, f *Fault) {
	t := w.tasks[rt.TaskID()]
	o := &Op{ID: nestedOp(levelOf(op.Op.ID)+1, f.Slot), Kind: "parse", Slot: f.Slot, Text: f.Text, Out: op.Op.Out, Debug: f.N == 1, Deep: max(f.Deep-1, 0)}
	if f.N == 2 {
		o.Kind = "tokens"
	}
	n := &OpRes{Op: o, parent: op, isNested: true}
	save := t.buf.String()
	t.buf.Reset()
	t.cur = n
	w.do(n)
	n.Out = t.buf.String()
	t.cur = op
	t.buf.Reset()
	t.buf.WriteString(save)
	op.Nested = append(op.Nested, n)
}

// exec runs one operation in the current task.
func (w *World) exec(t *taskState, op *Op) *OpRes {
	r := &OpRes{Op: op, Ran: true}
	w.res[op.ID] = r
	t.cur = r
	t.buf.Reset()
	b := w.budget
	if op.Kind == "compile" {
		b *= 8
	}
	first := ""
	for k := 0; k < op.Times; k++ {
		rt.Budget(b)
		x := &OpRes{Op: op, Ran: true}
		t.cur = x
		w.once(x)
		t.cur = nil
		t.buf.Reset()
		if k == 0 {
			first = x.Canon
		} else if x.Canon != first && r.Odd == "" {
			r.Odd = fmt.Sprintf("done for the %dth time gives %s but it gave %s the first time", k+1, clip(x.Canon), clip(first))
		}
	}
	t.cur = r
	st := rt.Steps()
	rr, re := rt.ReWork()
	rw := rt.Work()
	rt.Budget(b)
	defer func() {
		r.ReReads, r.ReEvals = rt.ReWork()
		r.ReReads -= rr
		r.Work = rt.Work() - rw
		r.ReEvals -= re
		r.Steps = rt.Steps() - st
		r.Out = t.buf.String()
		t.cur = nil
		if x := recover(); x != nil {
			r.Aborted = true
			r.Canon, r.Full = "abort", "abort"
			panic(x)
		}
	}()
	w.once(r)
	return r
}

func (w *World) once(r *OpRes) {
	if w.faults.g[r.Op.ID] {
		w.inGoroutine(r)
	} else {
		w.do(r)
	}
}

func (w *World) inGoroutine(r *OpRes) {
	c := make(chan any, 1)
	go func() {
		finished := false
		defer func() {
			x := recover()
			if !finished && x == nil && r.Canon == "" {
				r.Canon, r.Full = "goexit", "goexit"+logText(r)
			}
			c <- x
		}()
		w.do(r)
		finished = true
	}()
	if x := <-c; x != nil {
		panic(x)
	}
}

func logText(r *OpRes) string {
	var b strings.Builder
	for _, e := range r.Log {
		fmt.Fprintf(&b, "\n  %s %x %d %s", e.Rule, e.In, e.E, e.Act)
		if e.Look != 0 {
			fmt.Fprintf(&b, " %x", e.Look)
		}
	}
	for _, n := range r.Nested {
		b.WriteString("\n  nested: " + n.Full)
	}
	return b.String()
}

func (w *World) do(r *OpRes) {
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(rt.Abort); ok {
				panic(a)
			}
			r.Canon = "panic " + panicText(r, x)
			r.Full = r.Canon + logText(r)
			if ex, ok := x.(rt.Exited); ok {
				r.Canon = fmt.Sprintf("exit %d", ex.Code)
				r.Full = r.Canon
			}
		}
	}()
	ast, full, ok := w.perform(r, r.Op)
	if !ok { // not a parse
		r.Canon, r.Full = full, full
		return
	}
	r.Ast = ast
	switch {
	case ast == nil:
		r.Canon = "nil"
		r.Full = "nil"
	case j.IsParseError(ast):
		r.Canon = "perr"
		r.Full = "perr " + ast.(j.ParseError).ErrorString
	default:
		r.Canon = "ok " + dumpAst(ast, false)
		r.Full = "ok " + dumpAst(ast, true)
	}
	r.Head = r.Full
	r.Full += logText(r)
}

func panicText(r *OpRes, x any) string {
	if r.Sent != nil {
		if s, ok := r.Sent.(string); ok && s == "runtime" {
			if re, ok := x.(runtime.Error); ok && strings.Contains(re.Error(), "nil map") {
				return "runtime"
			}
		} else if x == r.Sent {
			switch x.(type) {
			case j.ParseError:
				return "parseerror"
			case error:
				return "error"
			case string:
				return "string"
			case *customPanic:
				return "pointer"
			case textPanic:
				return "stringer"
			case int:
				return "number"
			case j.Ast:
				return "ast"
			}
		}
	}
	return "other: " + describe(x)
}

func describe(x any) string {
	s := fmt.Sprintf("%T %v", x, x)
	if e, ok := x.(error); ok {
		s = fmt.Sprintf("%T %s", x, e.Error())
	}
	if len(s) > 2000 {
		s = s[:2000]
	}
	return s
}

func (w *World) perform(r *OpRes, op *Op) (ast j.Ast, full string, isParse bool) {
	var opts []j.ParseOption
	said := op.ID&4 != 0 // what is not wanted is said too
	if op.Debug || said {
		opts = append(opts, j.Debug{Bool: op.Debug})
	}
	if op.SkipLog || said {
		opts = append(opts, j.SkipLog{Bool: op.SkipLog})
	}
	if op.ID&2 != 0 { // in whatever order
		slices.Reverse(opts)
	}
	switch op.Kind {
	case "compile":
		return nil, w.compile(op), false
	case "parse":
		gm := w.gm[op.Slot]
		if gm == nil {
			return nil, "no grammar", false
		}
		return gm.ParseString(op.text(), opts...), "", true
	case "tokens":
		gm := w.gm[op.Slot]
		if gm == nil {
			return nil, "no grammar", false
		}
		return gm.ParseTokens(cutTokens(op.text(), op.Cut), opts...), "", true
	case "stream":
		gm := w.gm[op.Slot]
		if gm == nil {
			return nil, "no grammar", false
		}
		ts := w.streams[op.Stream]
		if ts == nil { // made when it is first used
			ts = buildStream(w.sc.Streams[op.Stream])
			w.streams[op.Stream] = ts
		}
		ts.SetPos(0)
		return gm.ParseTokens(ts, opts...), "", true
	case "gocode":
		ts, err := j.TokenStreamFromGoCode(op.text())
		r.GoProblem = goStreamCheck(op.text(), ts, err)
		full := gocodeText(ts, err)
		if err == nil && op.N == 1 && w.gm[op.Slot] != nil {
			work := workText(ts)
			a := w.gm[op.Slot].ParseTokens(ts, opts...)
			b := w.gm[op.Slot].ParseString(work, opts...)
			if x, y := valueText(a), valueText(b); x != y && r.GoProblem == "" {
				r.GoProblem = "the parse of the stream differs from the parse of its text: " + diffText(x, y)
			}
			full += " value " + valueText(a)
		}
		return nil, full, false
	case "bomb":
		if g := w.compilers[op.Slot]; g != nil {
			g.Bomb()
		}
		return nil, "bombed", false
	case "setenv":
		rt.Env = nil
		if op.Text != "" {
			k := "TRACE"
			if op.N == 1 {
				k = "trace"
			}
			rt.Env = []string{k, op.Text}
		}
		return nil, "set", false
	case "sleep":
		rt.Sleep(time.Duration(op.N) * time.Millisecond)
		return nil, "slept", false
	case "mutate":
		if op.N < len(w.res) && w.res[op.N] != nil {
			r := w.res[op.N]
			mutateAst(r.Ast, fmt.Sprintf("mutated%d", op.N%7))
			r.Now, _ = headNow(r)
		}
		return nil, "mutated", false
	case "rules":
		gm := w.gm[op.Slot]
		if gm == nil {
			return nil, "no grammar", false
		}
		gm.PrintRules()
		return nil, fmt.Sprintf("rules %d", gm.CountRules()), false
	}
	panic("op kind " + op.Kind)
}

// valueText: a value, or that it is none
func valueText(a j.Ast) string {
	switch {
	case a == nil:
		return "nil"
	case j.IsParseError(a):
		return "error"
	}
	return dumpAst(a, false)
}

// headNow: what a value is now, and its modifiable parts
func headNow(r *OpRes) (string, map[any]bool) {
	d := &dumper{origin: true, ptrs: map[any]bool{}}
	kind := "ok "
	if pe, ok := r.Ast.(j.ParseError); ok {
		kind = "perr "
		d.b.WriteString(pe.ErrorString)
		d.ptrs[pe.Attr] = true
	} else if r.Ast != nil {
		d.dump(r.Ast)
	}
	return kind + d.b.String(), d.ptrs
}

func mutateAst(a j.Ast, key string) {
	switch v := a.(type) {
	case *j.NativeArray:
		for _, x := range *v {
			mutateAst(x, key)
		}
		for i := range *v {
			(*v)[i] = j.NewNativeString("MUTATED")
		}
		v.Append(j.NewNativeString("MUTATED"))
	case *j.NativeMap:
		for _, k := range v.Keys() {
			mutateAst(v.Get(k), key)
			v.Set(k, j.NewNativeString("MUTATED"))
		}
		v.Set(key, j.NewNativeString("MUTATED"))
		v.SetOrigin(j.Origin{Code: "MUTATED", Start: 999, End: 999, Line: 999})
	case *Tag:
		mutateAst(v.It, key)
		if v.Note != nil {
			mutateAst(v.Note, key)
		}
		v.It = j.NewNativeString("MUTATED")
		v.h = 1
		v.SetOrigin(j.Origin{Code: "MUTATED", Start: 999, End: 999, Line: 999})
	case j.NativeUndefined:
		v.SetOrigin(j.Origin{Code: "MUTATED", Start: 999, End: 999, Line: 999})
	case j.ParseError:
		v.SetOrigin(j.Origin{Code: "MUTATED", Start: 999, End: 999, Line: 999})
	}
}

func cutTokens(text string, cut uint64) *j.TokenStream {
	r := newRng(cut)
	var ts []string
	for i := 0; i < len(text); {
		e := i
		for n := r.in(1, 4); n > 0 && e < len(text); n-- {
			_, k := utf8.DecodeRuneInString(text[e:])
			e += k
		}
		ts = append(ts, text[i:e])
		i = e
	}
	if cut%3 != 0 {
		return buildStream(StreamSpec{Orig: text, Tokens: ts})
	}
	if cut%2 == 0 && len(ts) > 0 {
		return shortOrigin(r, ts)
	}
	var orig strings.Builder // something between the tokens
	for _, t := range ts {
		if r.p(40) {
			orig.WriteString(pick(r, []string{" ", "\n", "  ", "\t\n", "   \n\n"}))
		}
		orig.WriteString(t)
	}
	if r.p(30) {
		orig.WriteString("\n")
	}
	return buildStream(StreamSpec{Orig: orig.String(), Tokens: ts})
}

// shortOrigin: some tokens, the last one mostly, are nowhere in the text, as
// the semicolons which end the lines of Go code
func shortOrigin(r *rng, ts []string) *j.TokenStream {
	var orig strings.Builder
	var toks []j.Token
	work, tail := 0, r.p(80)
	for i, t := range ts {
		toks = append(toks, j.Token{Repr: t, OriginalOffset: orig.Len(), WorkOffset: work})
		work += len(t)
		if i == len(ts)-1 && tail || r.p(15) {
			continue
		}
		orig.WriteString(t)
	}
	if r.p(30) {
		orig.WriteString("\n")
	}
	return j.NewTokenStream(orig.String(), toks)
}

func gocodeText(ts *j.TokenStream, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return "tokens " + ts.PrintDebug()
}

// compile compiles grammar op.G into op.Slot.
func (w *World) compile(op *Op) string {
	var lines []j.Line
	if op.Lines > 0 {
		lines = w.lines[op.Lines-1]
	} else {
		lines = w.buildLines(op.G)
	}
	if op.Fail != "" {
		lines = w.breakLines(op, lines)
	}
	var gm *j.Grammar
	name := w.sc.Gs[op.G].Name
	if op.EnvTr {
		gm = j.GrammarFromLines(name, lines)
	} else {
		opts := j.GrammarOptions{TraceOptions: w.traceOpts(op.Trace)}
		switch op.Lazy {
		case "":
			opts.LazyGrammar = sharedCompiler()
		case "fresh":
		default:
			opts.LazyGrammar = w.lazy(op.Lazy)
		}
		gm = j.GrammarWithOptionsFromLines(name, opts, lines)
	}
	w.gm[op.Slot] = gm
	w.slotG[op.Slot] = op.G
	return fmt.Sprintf("compiled %d rules, ready=%v", gm.CountRules(), gm.IsReady())
}

// sharedCompiler is the compiler grammar used by the operations for which
// nothing else was asked: making one is most of the cost of a compilation.
func sharedCompiler() *helpers.Lazy[*j.Grammar] {
	if processCompiler == nil {
		gm := j.NewJoesonWithOptions(j.Mute())
		processCompiler = helpers.LazyFromFunc(func() *j.Grammar { return gm })
		processCompiler.Get()
		// what it computes lazily is computed now: what the compilations of a
		// run do must not depend on the runs before
		opts := j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: processCompiler}
		j.GrammarWithOptionsFromLines("joeson", opts, j.IntentionRules())
		w := &World{sc: &Scenario{}}
		for i := 0; i < 60; i++ {
			r := newRng(uint64(i), 0x77a2)
			g := genGrammar(r, swarmCfg(r))
			if i%6 == 0 {
				g = genLR(r)
			}
			w.sc.Gs = append(w.sc.Gs, g)
			j.GrammarWithOptionsFromLines(g.Name, opts, w.buildLines(i))
		}
	}
	return processCompiler
}

var processCompiler *helpers.Lazy[*j.Grammar]

// lazy: the compiler grammar "cK" is shared by the operations naming it, and
// made on first use; "cK!": making it fails the first time. For K even it is
// the hand-written one, for K odd it is compiled from its own description.
func (w *World) lazy(name string) *helpers.Lazy[*j.Grammar] {
	k := lazyNumber(name)
	if l := w.lazies[k]; l != nil {
		return l
	}
	first := strings.HasSuffix(name, "!")
	l := helpers.LazyFromFunc(func() *j.Grammar {
		rt.Yield()
		if first {
			first = false
			w.fire("compiler-panic")
			panic(errLazy)
		}
		var gm *j.Grammar
		if k%2 == 0 {
			gm = j.NewJoesonWithOptions(j.Mute())
		} else {
			gm = j.GrammarWithOptionsFromLines("joeson", j.GrammarOptions{TraceOptions: j.Mute()}, j.IntentionRules())
		}
		w.compilers[k] = gm
		return gm
	})
	w.lazies[k] = l
	return l
}

func lazyNumber(name string) int {
	return atoi(strings.Trim(name, "c!")) % maxSlots
}

var errLazy = errors.New("the compiler grammar is not available")

// breakLines: a compilation which cannot succeed
func (w *World) breakLines(op *Op, lines []j.Line) []j.Line {
	out := append([]j.Line{}, lines...)
	at := op.N % (len(out) + 1)
	add := func(l j.Line) {
		out = append(out[:at:at], append([]j.Line{l}, out[at:]...)...)
	}
	switch op.Fail {
	case "syntax":
		bad := "'a' ( 'b'"
		switch op.N / 2 % 6 {
		case 0:
			bad = "'a'\n | ( 'b'"
		case 1:
			bad = "'a'\n|\n\n | 'b'\n)"
		case 2:
			bad = "'é' ]"
		case 3:
			bad = strings.Repeat("'a' ", 40+op.N%50) + "("
		case 4: // what is said of one of its rules, and too much
			g := w.sc.Gs[op.G]
			if rs := g.Rules; len(rs) > 0 {
				if x := rs[op.N%len(rs)]; x.Sub == nil {
					bad = g.body(x) + " )"
				}
			}
		}
		add(j.I(j.Named("zbad", bad)))
	case "regex":
		add(j.I(j.Named("zbad", "/a(b/")))
	case "class":
		add(j.I(j.Named("zbad", "[z-a]")))
	case "code":
		add(j.I(j.Named("zbad", "('a') -> {b}")))
	case "range":
		add(j.I(j.Named("zbad", "'a'{99999999999999999999,}")))
	case "empty":
		add(j.I(j.Named("zbad", "")))
	case "undef":
		add(j.O(j.Named("zbad", w.undefined(op))))
	case "undefat":
		add(j.O(j.Named("zbad", "a:'a'? @:"+w.undefined(op))))
	case "undefrm": // a rule is missing
		var named []int
		for i, r := range w.sc.Gs[op.G].Rules {
			if i < len(lines) && !r.O && r.Name != "" {
				named = append(named, i)
			}
		}
		if len(named) > 0 {
			i := named[op.N%len(named)]
			name := w.sc.Gs[op.G].Rules[i].Name
			out = slices.Delete(out, i, i+1)
			if op.N%3 > 0 {
				at = min(at, len(out))
				add(j.O(j.Named("zbad", "a:'a'? @:"+name)))
			}
		}
	}
	w.fire("compile-" + op.Fail)
	return out
}

// undefined: a name which is not one of a rule of this grammar, but may be of
// a rule of another
func (w *World) undefined(op *Op) string {
	if op.N%2 == 1 {
		for _, g := range w.sc.Gs {
			for _, x := range g.Rules {
				if x.Name != "" && !slices.ContainsFunc(w.sc.Gs[op.G].Rules, func(y *Rule) bool { return y.Name == x.Name }) {
					return x.Name
				}
			}
		}
	}
	return "nosuch"
}

// ---- running a scenario ----

func (w *World) runSetup() rt.Result { return w.runTasks([][]Op{w.sc.Setup}, Sched{Mode: "replay"}) }

// runSpecial runs f as the only task.
func (w *World) runSpecial(f func(t *taskState)) {
	t := &taskState{w: w, fired: map[string]int{}}
	w.tasks = []*taskState{t}
	w.sim = rt.Run(rt.Config{Budget: w.budget, MapSeed: w.sc.MapSeed}, []io.Writer{t}, func() { f(t) })
	simSteps += w.sim.Steps
	simClock += w.sim.Clock
	simRuns++
}

func (w *World) runTasks(tasks [][]Op, sched Sched) rt.Result {
	w.tasks = nil
	var outs []io.Writer
	var fns []func()
	for i := range tasks {
		t := &taskState{w: w, fired: map[string]int{}}
		w.tasks = append(w.tasks, t)
		outs = append(outs, t)
		ops := tasks[i]
		fns = append(fns, func() {
			for k := range ops {
				if w.before != nil {
					w.before(&ops[k])
				}
				w.exec(t, &ops[k])
			}
		})
	}
	cfg := sched.config()
	cfg.Budget = w.budget
	cfg.MapSeed = w.sc.MapSeed
	if len(fns) == 0 {
		return rt.Result{}
	}
	res := rt.Run(cfg, outs, fns...)
	for _, t := range w.tasks {
		for k, n := range t.fired {
			w.fired[k] += n
		}
	}
	simSteps += res.Steps
	simClock += res.Clock
	simRuns++
	w.sim = res
	return res
}

var (
	simSteps uint64
	simClock time.Duration
	simRuns  uint64
)
