package sim

import (
	"reflect"
	"time"
)

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s := S
	if s == nil || s.Cur == nil {
		v, ok = <-ch
		return
	}
	Y()
	if ch != nil {
		select {
		case v, ok = <-ch:
			ownTime(&v)
			return
		default:
		}
	}
	Extern(func() { v, ok = <-ch })
	ownTime(&v)
	return
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil || s.Cur == nil {
			ch <- v
			return
		}
		Y()
		if ch != nil {
			select {
			case ch <- v:
				Y()
				return
			default:
			}
		}
		Extern(func() { ch <- v })
	}
}

// CloseCh is close(ch).
func CloseCh[T any](ch chan<- T) {
	Y()
	close(ch)
	Y()
}

type Case struct {
	dir reflect.SelectDir
	ch  reflect.Value
	val reflect.Value
}

func RecvCase[T any](ch <-chan T) Case {
	return Case{dir: reflect.SelectRecv, ch: reflect.ValueOf(ch)}
}

func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{dir: reflect.SelectSend, ch: reflect.ValueOf(ch), val: reflect.ValueOf(&v).Elem()}
	}
}

// As converts a received value to the element type of ch.
func As[T any](_ <-chan T, v any) T {
	if v == nil {
		var z T
		return z
	}
	x := v.(T)
	ownTime(&x)
	return x
}

// ownTime makes the time that a timer tells what the clock of the machine says.
func ownTime(p any) {
	if t, ok := p.(*time.Time); ok && !t.IsZero() && S != nil && S.Cur != nil && S.Cur.Node != nil {
		*t = t.Add(S.Cur.Node.Skew)
	}
}

func val(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// Select is the select statement; the scheduler picks among ready cases.
// It returns -1 when the default case is taken.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	s := S
	if s == nil || s.Cur == nil {
		return realSelect(hasDefault, cases)
	}
	Y()
	n := len(cases)
	start := 0
	var perm []int
	if n > 1 {
		perm = s.Rng.Perm(n)
	} else if n == 1 {
		perm = []int{0}
	}
	for _, i := range perm[start:] {
		c := cases[i]
		if c.ch.IsNil() {
			continue
		}
		sc := []reflect.SelectCase{{Dir: c.dir, Chan: c.ch, Send: c.val}, {Dir: reflect.SelectDefault}}
		if k, v, ok := reflect.Select(sc); k == 0 {
			return i, val(v), ok
		}
	}
	if hasDefault {
		// A select with a default in a loop is a spin; keep the world moving.
		Y()
		return -1, nil, false
	}
	var (
		i  int
		v  any
		ok bool
	)
	Extern(func() { i, v, ok = realSelect(false, cases) })
	return i, v, ok
}

func realSelect(hasDefault bool, cases []Case) (int, any, bool) {
	sc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		sc = append(sc, reflect.SelectCase{Dir: c.dir, Chan: c.ch, Send: c.val})
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	if len(sc) == 0 {
		select {}
	}
	i, v, ok := reflect.Select(sc)
	if i == len(cases) {
		return -1, nil, false
	}
	return i, val(v), ok
}
