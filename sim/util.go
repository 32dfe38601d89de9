package sim

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// NumCPU and GOMAXPROCS are those of the simulated machines, not of this one.
func NumCPU() int          { return 2 }
func GOMAXPROCS(n int) int { return 2 }

// MapKeys returns the keys of m in an order decided by the seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	rv := reflect.TypeOf(keys).Elem()
	switch rv.Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int()
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint()
		})
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		// not orderable; at most a handful of internal uses
		return keys
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
	if S != nil && S.Cur != nil {
		S.Rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	return keys
}

// MapIterator walks a map like range does, in an order decided by the seed.
type MapIterator[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapIter[M ~map[K]V, K comparable, V any](m M) (it *MapIterator[K, V], k K, v V) {
	return &MapIterator[K, V]{m, MapKeys(m)}, k, v
}

func (it *MapIterator[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// ChanIterator is range over a channel.
type ChanIterator[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) (it *ChanIterator[T], v T) { return &ChanIterator[T]{ch}, v }

func (it *ChanIterator[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ReadMemStats hides the real heap from the program.
func ReadMemStats(m *runtime.MemStats) {
	*m = runtime.MemStats{Alloc: 64 << 20, Sys: 128 << 20, HeapAlloc: 64 << 20, HeapSys: 128 << 20}
}

// Knob is a setting of a library that a scenario may turn.
func Knob(name string, def int) int {
	if S != nil {
		if v, ok := S.Data["knob."+name].(int); ok {
			return v
		}
	}
	return def
}
