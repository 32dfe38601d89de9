package harness

import (
	"fmt"
	"sort"
	"strings"
)

// LinOp is one operation of a recorded history. Call and Ret are event numbers;
// Ret of an operation without answer is the event after which it cannot take
// effect any more (linForever if there is none).
type LinOp struct {
	Client    int
	In        any
	Out       any // nil: outcome unknown
	Call, Ret int64
}

const linForever = int64(1) << 60

// LinModel is a sequential specification. Step returns every state the object
// can be in after the operation with that outcome; none means impossible.
// Operations with unknown outcome may also have no effect: the checker adds that.
type LinModel[S any] struct {
	Init S
	Step func(s S, in, out any) []S
	Key  func(s S) string
	Desc func(o *LinOp) string
}

// CheckLin searches for a linearization. It reports ok, or decided=false if the
// search was cut off.
func CheckLin[S any](m LinModel[S], ops []*LinOp, limit int) (ok, decided bool, stuck string) {
	ops = append([]*LinOp(nil), ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	n := len(ops)
	done := make([]bool, n)
	seen := map[string]bool{}
	steps := 0
	best := -1
	var bestDesc string
	var rec func(s S, left int) int // 1 found, 0 no, -1 cut off
	mask := make([]byte, n)
	for i := range mask {
		mask[i] = '0'
	}
	needed := 0
	for _, o := range ops {
		if o.Out != nil {
			needed++
		}
	}
	rec = func(s S, left int) int {
		if left == 0 {
			return 1
		}
		steps++
		if steps > limit {
			return -1
		}
		k := string(mask) + m.Key(s)
		if seen[k] {
			return 0
		}
		seen[k] = true
		if needed-left > best {
			best = needed - left
			var b strings.Builder
			fmt.Fprintf(&b, "state %s; cannot continue with any of:", m.Key(s))
			first := linForever + 1
			for i, o := range ops {
				if !done[i] && o.Ret < first {
					first = o.Ret
				}
			}
			for i, o := range ops {
				if !done[i] && o.Call <= first {
					fmt.Fprintf(&b, " {%s}", m.Desc(o))
				}
			}
			bestDesc = b.String()
		}
		first := linForever + 1
		for i, o := range ops {
			if !done[i] && o.Ret < first {
				first = o.Ret
			}
		}
		cut := false
		for i, o := range ops {
			if o.Call > first {
				break
			}
			if done[i] {
				continue
			}
			done[i], mask[i] = true, '1'
			nl := left
			if o.Out != nil {
				nl--
			}
			for _, ns := range m.Step(s, o.In, o.Out) {
				switch rec(ns, nl) {
				case 1:
					return 1
				case -1:
					cut = true
				}
				if cut {
					break
				}
			}
			if !cut && o.Out == nil && o.Ret < linForever {
				// it may have had no effect
				switch rec(s, nl) {
				case 1:
					return 1
				case -1:
					cut = true
				}
			}
			done[i], mask[i] = false, '0'
			if cut {
				return -1
			}
		}
		return 0
	}
	switch rec(m.Init, needed) {
	case 1:
		return true, true, ""
	case -1:
		return true, false, ""
	}
	return false, true, bestDesc
}
