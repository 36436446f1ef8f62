package main

import (
	"fmt"
	"strconv"

	"verifsim/entry"
)

// What is used at every event is written without maps, hashes and formatting of
// the standard library: in the build with the race detector those are
// instrumented, and the detector would be busy with the simulated world.

// table is a small map.
type table[V any] struct {
	keys []string
	vals []V
}

func (t *table[V]) at(key string) *V {
	for i, k := range t.keys {
		if k == key {
			return &t.vals[i]
		}
	}
	var zero V
	t.keys = append(t.keys, key)
	t.vals = append(t.vals, zero)
	return &t.vals[len(t.vals)-1]
}

func (t *table[V]) all() map[string]V {
	m := map[string]V{}
	for i, k := range t.keys {
		m[k] = t.vals[i]
	}
	return m
}

// fnv64a is the hash of hash/fnv.
type fnv64a uint64

const fnvBegin fnv64a = 14695981039346656037

func (h *fnv64a) add(s string) {
	x := *h
	for i := 0; i < len(s); i++ {
		x ^= fnv64a(s[i])
		x *= 1099511628211
	}
	*h = x
}

func (h *fnv64a) add64(v uint64) {
	x := *h
	for i := 0; i < 64; i += 8 {
		x ^= fnv64a(byte(v >> i))
		x *= 1099511628211
	}
	*h = x
}

// sprintf knows the verbs and types most events have and leaves the rest to fmt.
func sprintf(format string, a ...any) string {
	b := make([]byte, 0, 120)
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			b = append(b, c)
			continue
		}
		i++
		if i == len(format) || n == len(a) {
			return slow(format, a)
		}
		verb := format[i]
		arg := a[n]
		n++
		switch v := arg.(type) {
		case string:
			if verb != 's' && verb != 'v' {
				return slow(format, a)
			}
			b = append(b, v...)
		case []byte:
			if verb != 's' {
				return slow(format, a)
			}
			b = append(b, v...)
		case int:
			if verb != 'd' && verb != 'v' {
				return slow(format, a)
			}
			b = strconv.AppendInt(b, int64(v), 10)
		case int64:
			if verb != 'd' && verb != 'v' {
				return slow(format, a)
			}
			b = strconv.AppendInt(b, v, 10)
		case bool:
			if verb != 'v' {
				return slow(format, a)
			}
			b = strconv.AppendBool(b, v)
		case nil:
			if verb != 'v' {
				return slow(format, a)
			}
			b = append(b, "<nil>"...)
		case error:
			if verb != 's' && verb != 'v' {
				return slow(format, a)
			}
			b = append(b, v.Error()...)
		default:
			return slow(format, a)
		}
	}
	if n != len(a) {
		return slow(format, a)
	}
	return string(b)
}

func slow(format string, a []any) (s string) {
	entry.Quiet(func() { s = fmt.Sprintf(format, a...) })
	return s
}
