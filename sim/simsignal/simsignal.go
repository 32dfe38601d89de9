// Package simsignal replaces os/signal: signals are delivered by the harness.
package simsignal

import (
	"os"
	sim "verifsim"
)

type key struct{ n *sim.Node }

// Notify registers c for the simulated process.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	n := sim.CurNode()
	if n == nil {
		return
	}
	l, _ := n.Data["signal"].([]chan<- os.Signal)
	n.Data["signal"] = append(l, c)
}

func Stop(c chan<- os.Signal) {}

func Ignore(sig ...os.Signal) {}

func Reset(sig ...os.Signal) {}

// Send delivers a signal to node n; it reports whether anybody listens.
func Send(n *sim.Node, s os.Signal) bool {
	l, _ := n.Data["signal"].([]chan<- os.Signal)
	for _, c := range l {
		select {
		case c <- s:
		default:
		}
	}
	return len(l) > 0
}
