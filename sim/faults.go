package sim

import "time"

// FaultPlan decides which faults fire. Rates are per-mille probabilities per
// opportunity. Every fired fault has an index; Keep restricts a run to some of
// them, which is how a failing run is minimised.
type FaultPlan struct {
	Rates map[string]int
	Keep  map[int]bool // nil: all
	Off   bool
	Max   int // at most that many faults fire (0: no limit)
	Only  func(kind string) bool

	next  int
	Fired []FiredFault
	Count map[string]int
}

type FiredFault struct {
	Index int    `json:"index"`
	Kind  string `json:"kind"`
	At    string `json:"at"`
	Where string `json:"where"`
}

// Roll reports whether a fault of this kind strikes here.
func (s *Sim) Roll(kind string, where func() string) bool {
	p := &s.Plan
	if p.Off || p.Rates == nil {
		return false
	}
	r := p.Rates[kind]
	if r == 0 || s.Fault.Intn(1000) >= r {
		return false
	}
	return s.fire(kind, where)
}

// Inject records a fault that the scenario itself decided on (crash, partition ...).
// It returns false if the minimiser removed it.
func (s *Sim) Inject(kind string, where func() string) bool {
	if s.Plan.Off {
		return false
	}
	return s.fire(kind, where)
}

func (s *Sim) fire(kind string, where func() string) bool {
	p := &s.Plan
	if p.Max > 0 && len(p.Fired) >= p.Max {
		return false
	}
	i := p.next
	p.next++
	if p.Keep != nil && !p.Keep[i] {
		return false
	}
	w := ""
	if where != nil {
		w = where()
	}
	p.Fired = append(p.Fired, FiredFault{Index: i, Kind: kind, At: s.Now().String(), Where: w})
	if p.Count == nil {
		p.Count = map[string]int{}
	}
	p.Count[kind]++
	Logf("FAULT #%d %s %s", i, kind, w)
	return true
}

// Between draws a duration from the fault stream.
func (s *Sim) Between(lo, hi time.Duration) time.Duration {
	if hi <= lo {
		return lo
	}
	return lo + time.Duration(s.Fault.Int63n(int64(hi-lo)))
}

// Die parks the running task of a crashed process forever.
func Die() {
	if S != nil && S.Cur != nil {
		t := S.Cur
		t.state = stBlocked
		for {
			<-t.gate
		}
	}
	select {}
}

// DieIfDead is called at the end of every simulated system call.
func DieIfDead() {
	if n := CurNode(); n != nil && n.Dead {
		Die()
	}
}
