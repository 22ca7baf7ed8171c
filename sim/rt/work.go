package verifrt

import "strings"

// The work done by builtin functions, conversions, concatenations and functions
// of package strings, which have no steps: how many bytes or elements they go
// through. Measured when MeterRe is set.

func add(n int) {
	if MeterRe && cur != nil && n > 0 {
		cur.work += uint64(n)
	}
}

// WS is given a string all of which is read, or made.
func WS[T ~string](s T) T {
	add(len(s))
	return s
}

// WL is given a slice all of which is read.
func WL[S ~[]E, E any](s S) S {
	add(len(s))
	return s
}

// WN is given the length of a slice that is made.
func WN[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N) N {
	add(int(n))
	return n
}

// WA is given the string that another one is added to.
func WA[T, U ~string](s T, x U) U {
	add(len(s) + len(x))
	return x
}

// WI is given a string where sub is looked for from its start, WJ from its end.
func WI[T, U ~string](sub U, s T) T {
	if MeterRe && cur != nil {
		if i := strings.Index(string(s), string(sub)); i >= 0 {
			add(i + len(sub))
		} else {
			add(len(s))
		}
	}
	return s
}

func WJ[T, U ~string](sub U, s T) T {
	if MeterRe && cur != nil {
		i := strings.LastIndex(string(s), string(sub))
		if i < 0 {
			i = 0
		}
		add(len(s) - i)
	}
	return s
}

// Work returns what the running task did.
func Work() uint64 {
	if cur == nil {
		return 0
	}
	return cur.work
}
