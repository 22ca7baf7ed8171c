package verifrt

import (
	"fmt"
	"io"
	"sort"
)

// ---- stdout, stdin, environment, exit ----

// Out receives what is printed while no task is running.
var Out io.Writer = io.Discard

type stdout struct{}

//go:norace
func (stdout) Write(p []byte) (int, error) {
	if cur != nil && cur.out != nil {
		return cur.out.Write(p)
	}
	return Out.Write(p)
}
func (w stdout) WriteString(x string) (int, error) { return w.Write([]byte(x)) }

var Stdout = stdout{}

// SetOut redirects the stdout of the running task.
//
//go:norace
func SetOut(w io.Writer) io.Writer {
	if cur == nil {
		old := Out
		Out = w
		return old
	}
	old := cur.out
	cur.out = w
	return old
}

func Print(a ...any) (int, error)            { return Stdout.Write([]byte(fmt.Sprint(a...))) }
func Println(a ...any) (int, error)          { return Stdout.Write([]byte(fmt.Sprintln(a...))) }
func Printf(f string, a ...any) (int, error) { return Stdout.Write([]byte(fmt.Sprintf(f, a...))) }

type stdin struct{}

var In io.Reader

func (stdin) Read(p []byte) (int, error) {
	Y(0)
	if In == nil {
		return 0, io.EOF
	}
	return In.Read(p)
}

var Stdin = stdin{}

// Env is the simulated environment: names and values in turn.
var Env []string

//go:norace
func Getenv(k string) string { v, _ := LookupEnv(k); return v }

//go:norace
func LookupEnv(k string) (string, bool) {
	for i := 0; i+1 < len(Env); i += 2 {
		if Env[i] == k {
			return Env[i+1], true
		}
	}
	return "", false
}
func Exit(code int) { panic(Exited{code}) }

// ---- map iteration order ----

type KV[K comparable, V any] struct {
	K K
	V V
}

var mapSeed, mapCtr uint64

// MapRanges counts the map iterations which went through the seam.
var MapRanges uint64

// Entries lists m in an order which is a function of the run's seed only.
//
//go:norace
func Entries[M ~map[K]V, K comparable, V any](m M) []KV[K, V] {
	a := make([]KV[K, V], 0, len(m))
	for k, v := range m {
		a = append(a, KV[K, V]{k, v})
	}
	sort.Slice(a, func(i, j int) bool { return less(a[i].K, a[j].K) })
	shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	return a
}

// OrderKeys is the same for a list of keys.
//
//go:norace
func OrderKeys(a []any) {
	sort.Slice(a, func(i, j int) bool { return less(a[i], a[j]) })
	shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
}

//go:norace
func shuffle(n int, swap func(i, j int)) {
	MapRanges++
	if mapSeed != 0 {
		mapCtr++
		h := mapSeed*0x9e3779b97f4a7c15 + mapCtr
		for i := n - 1; i > 0; i-- {
			h = mix(h, uint64(i))
			swap(i, int(h%uint64(i+1)))
		}
	}
}

// Has tells whether k is still in m (entries can be deleted while iterating).
//
//go:norace
func Has[M ~map[K]V, K comparable, V any](m M, k K) bool { _, ok := m[k]; return ok }

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
