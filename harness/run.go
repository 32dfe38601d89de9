package harness

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/google/uuid"
	"github.com/sirupsen/logrus"

	sim "verifsim"
	"verifsim/simcrand"
	"verifsim/simetcd"
	"verifsim/simnet"
	"verifsim/simos"
)

func scratchBase() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if f, err := os.CreateTemp("/dev/shm", "verif-probe"); err == nil {
			f.Close()
			os.Remove(f.Name())
			return "/dev/shm"
		}
	}
	return os.TempDir()
}

// runPlan executes one plan in its own bubble.
func runPlan(t *testing.T, p *Plan, logOn bool) (res *Result) {
	sc := find(p.Prop, p.Scenario)
	if sc == nil {
		return &Result{Err: "no such scenario " + p.Prop + "/" + p.Scenario}
	}
	res = &Result{Seed: p.Seed, Scenario: p.Scenario}
	dir, err := os.MkdirTemp(scratchBase(), "goodfs-sim-")
	if err != nil {
		res.Err = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	// file names must not depend on the scratch directory: the event log is rewritten
	begin := time.Now()
	logrus.SetOutput(io.Discard)
	if os.Getenv("VERIF_APPLOG") != "" {
		logrus.SetOutput(os.Stderr)
	}
	uuid.SetRand(simcrand.Reader)
	var w *World
	var s *sim.Sim
	func() {
		defer func() {
			if r := recover(); r != nil {
				m := fmt.Sprint(r)
				if strings.Contains(m, "deadlock") && strings.Contains(m, "bubble") {
					return // tasks of the finished run are still parked
				}
				res.Err = fmt.Sprintf("panic outside of the simulation: %v\n%s", r, debug.Stack())
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			var cleanup *sim.Sim
			s = sim.Run(p.Seed, p.Cfg, logOn, func() {
				s = sim.S
				cleanup = s
				s.Plan.Rates = p.Rates
				s.Plan.Max = p.Max
				if p.Keep != nil {
					s.Plan.Keep = map[int]bool{}
					for _, k := range p.Keep {
						s.Plan.Keep[k] = true
					}
				}
				w = &World{S: s, Plan: p, Rng: sim.NewRand(p.Seed ^ 0x77777), Dir: dir}
				w.Etcd = simetcd.C()
				w.Net = simnet.N()
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(stopRun); !ok {
							panic(r)
						}
					}
				}()
				sc.Run(w)
			})
			res.SimTime = s.Now().Seconds()
			_ = cleanup
		})
	}()
	if s != nil {
		// release descriptors of the abandoned processes
		old := sim.S
		sim.S = s
		if s.Livelock == "" {
			simos.UnmapAll()
		}
		simos.CloseAll(nil)
		sim.S = old
	}
	res.Wall = time.Since(begin).Seconds()
	if s == nil {
		if res.Err == "" {
			res.Err = "simulation did not start"
		}
		return
	}
	res.Steps, res.Switches, res.Hash = s.Steps, s.Switches, s.Hash
	res.Probes = s.Probes
	res.Faults = s.Plan.Count
	res.NFaults = len(s.Plan.Fired)
	res.Fired = s.Plan.Fired
	res.Panics = s.Panics
	res.Overrun = s.Overrun
	if w != nil {
		res.Viol, res.Known, res.Ops, res.Nontriv, res.Notes = w.Viol, w.Known, w.Ops, w.Nontriv, w.Notes
	}
	if s.HarnessPanic != "" {
		res.Err = "harness panic: " + s.HarnessPanic
	}
	if s.Deadlock != "" && res.Err == "" {
		res.Err = "simulation deadlock: " + s.Deadlock
	}
	if s.Livelock != "" && res.Err == "" && res.Viol == nil {
		v := &Violation{Class: "livelock", Msg: "a task of " + s.Livelock + " runs without ever blocking or finishing", At: s.Now().String(), Step: s.Steps}
		known := false
		for _, k := range p.known {
			if k.Match(p.Prop, v.Class, v.Msg) {
				res.Known = append(res.Known, *v)
				known = true
			}
		}
		if !known {
			res.Viol = v
		}
	}
	if logOn {
		h := fnv.New64a()
		for i := range s.Log {
			s.Log[i] = strings.ReplaceAll(s.Log[i], dir, "$DIR")
			io.WriteString(h, s.Log[i])
		}
		res.Log, res.LogHash = s.Log, h.Sum64()
	}
	return
}

func memMB() int {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.Sys >> 20)
}
