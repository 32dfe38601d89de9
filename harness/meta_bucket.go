package harness

import (
	"fmt"
	"strings"
)

// Buckets are records of their own: ids "bucket:<name>".
const bkPrefix = "bucket:"

func isBucket(id string) bool     { return strings.HasPrefix(id, bkPrefix) }
func bucketName(id string) string { return strings.TrimPrefix(id, bkPrefix) }

type bkState struct {
	exists bool
	val    int
	hi     int64
}

func (s bkState) key() string { return fmt.Sprint(s) }

func oneB(s bkState) []bkState { return []bkState{s} }

func bkStep(existsOK bool) func(s bkState, in, out any) []bkState {
	return func(s bkState, in_, out_ any) []bkState {
		in := in_.(metaIn)
		var out *metaOut
		if out_ != nil {
			out = out_.(*metaOut)
		}
		refused := out != nil && out.st == rNo
		none := out != nil && out.st == rNone
		ok := out == nil || out.st == rOK
		switch in.k {
		case "addBk":
			if s.exists {
				if refused || out == nil || (existsOK && ok) {
					return oneB(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			return oneB(bkState{true, in.num, in.end})
		case "updBk":
			if !s.exists {
				if none || out == nil {
					return oneB(s)
				}
				return nil
			}
			if refused {
				if s.hi >= in.at {
					return oneB(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			return oneB(bkState{true, in.num, in.end})
		case "delBk":
			if !ok {
				return nil
			}
			return oneB(bkState{})
		case "getBk":
			if none {
				if s.exists {
					return nil
				}
				return oneB(s)
			}
			if !ok || !s.exists || out == nil || out.bk.Name != bucketName(in.id) || out.bk.Val != s.val {
				return nil
			}
			return oneB(s)
		}
		panic("bkStep: " + in.k)
	}
}
