// Package sim is a deterministic cooperative scheduler. Every goroutine of the
// system under test is a Task; at most one Task runs at a time and which one is
// decided by a seeded PRNG. It lives inside a testing/synctest bubble, so that
// time is virtual and quiescence of everything else can be detected.
package sim

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

type taskState int

const (
	stReady   taskState = iota // parked, can be scheduled
	stRunning                  // the current task
	stBlocked                  // blocked inside a simulated primitive, needs an explicit wake
	stExtern                   // blocked in a real channel/timer operation
	stDone
)

type Task struct {
	ID    int
	Name  string
	Node  *Node
	gate  chan struct{}
	state taskState
	kids  int
	prio  int
	// errgroup-like local storage for RPC plumbing
	Local map[string]any
}

// Node is a simulated process. Its package level variables are private to it.
type Node struct {
	Name       string
	Dead       bool   // crashed: none of its tasks ever runs again
	Module     string // which instrumented module's globals belong to it
	globals    map[string][]any
	Skew       time.Duration // of its wall clock
	Stall      time.Time     // not scheduled before this instant
	Panic      string        // unrecovered panic of one of its tasks
	PanicAt    string
	PanicStack string
	Sim        *Sim
	Data       map[string]any
	OnCrash    []func()
}

type Config struct {
	PreemptPct int // per-mille probability that a potential preemption point preempts
	Mode       int // 0 random, 1 priorities (PCT like), 2 round robin-ish (oldest first)
	StallPct   int // per-mille probability that the scheduler lets time pass although tasks are ready
	MaxStall   time.Duration
	MaxSteps   int
}

type Sim struct {
	Seed  int64
	Cfg   Config
	Rng   *rand.Rand // scheduling decisions
	Fault *rand.Rand // fault decisions (separate stream, keeps schedules comparable while shrinking)
	Cur   *Task
	Start time.Time
	App   *rand.Rand // randomness handed to the program
	Plan  FaultPlan
	Data  map[string]any // per run state of simulated services

	mu     sync.Mutex
	parked []*Task
	wake   chan struct{}
	nextID int
	tasks  map[int]*Task
	nodes  []*Node
	loaded map[string]*Node // module -> node whose globals are loaded

	Steps        int
	Switches     int
	Hash         uint64 // running hash of every scheduling decision (interleaving identity)
	Probes       map[string]int
	logf         func(string)
	Log          []string
	LogOn        bool
	stopping     bool
	mainDone     bool
	Overrun      bool
	Deadlock     string
	OnPanic      func(n *Node, t *Task, msg string)
	OnStep       func()
	Panics       []string
	HarnessPanic string
	Livelock     string
	spin         int
	lastTime     time.Time
	sameTime     int
	trace        *os.File
}

// S is the simulator of the running bubble, nil outside of a simulation.
var S *Sim

func (s *Sim) Now() time.Duration { return time.Since(s.Start) }

func (s *Sim) Probe(name string) { s.Probes[name]++ }

// Probe counts an event that a run reached.
func Probe(name string) {
	if S != nil {
		S.Probes[name]++
	}
}

// Logf appends to the event log. It never draws randomness.
func Logf(format string, a ...any) {
	s := S
	if s == nil || !s.LogOn {
		return
	}
	who := "-"
	if s.Cur != nil {
		who = fmt.Sprintf("%s/%s#%d", nodeName(s.Cur.Node), s.Cur.Name, s.Cur.ID)
	}
	line := fmt.Sprintf("%12.6f %6d %s: %s", s.Now().Seconds(), s.Steps, who, fmt.Sprintf(format, a...))
	s.Log = append(s.Log, line)
	if s.trace != nil {
		fmt.Fprintln(s.trace, line)
	}
}

func nodeName(n *Node) string {
	if n == nil {
		return "harness"
	}
	return n.Name
}

// Run executes main as the first task inside the current synctest bubble and
// returns when main returned (or the step budget is exhausted). Tasks still
// alive then are abandoned.
func Run(seed int64, cfg Config, logOn bool, main func()) *Sim {
	s := &Sim{
		Seed: seed, Cfg: cfg,
		Rng:    NewRand(seed*2654435761 + 17),
		Fault:  NewRand(seed*40503 + 99991),
		App:    NewRand(seed*69069 + 12345),
		Data:   map[string]any{},
		Start:  time.Now(),
		wake:   make(chan struct{}, 1),
		tasks:  map[int]*Task{},
		loaded: map[string]*Node{},
		Probes: map[string]int{},
		LogOn:  logOn,
		Hash:   14695981039346656037,
	}
	if p := os.Getenv("VERIF_TRACE"); p != "" && logOn {
		s.trace, _ = os.Create(fmt.Sprintf("%s.%d.%d", p, seed, os.Getpid()))
	}
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 2_000_000
	}
	resetGlobals()
	S = s
	defer func() { S = nil }()
	s.spawn("main", nil, func() {
		defer func() { s.mainDone = true }()
		main()
	})
	s.loop()
	return s
}

func (s *Sim) loop() {
	for !s.mainDone && !s.Overrun && s.Deadlock == "" && s.Livelock == "" {
		synctest.Wait()
		if s.mainDone {
			return
		}
		t := s.pick()
		if t == nil {
			continue
		}
		s.Steps++
		if s.Steps > s.Cfg.MaxSteps {
			s.Overrun = true
			return
		}
		if now := time.Now(); !now.Equal(s.lastTime) {
			s.lastTime, s.sameTime = now, 0
		} else if s.sameTime++; s.sameTime > 600_000 {
			s.Livelock = nodeName(t.Node) + "/" + t.Name
			return
		}
		if s.trace != nil {
			fmt.Fprintf(s.trace, "step %d %s %s#%d parked %d\n", s.Steps, nodeName(t.Node), t.Name, t.ID, len(s.parked))
		}
		s.switchTo(t)
		t.state = stRunning
		s.Cur = t
		s.spin = 0
		t.gate <- struct{}{}
		synctest.Wait()
		s.Cur = nil
		if s.OnStep != nil {
			s.OnStep()
		}
	}
}

// pick chooses the next task, letting virtual time pass when none is ready.
func (s *Sim) pick() *Task {
	s.mu.Lock()
	var ready []*Task
	kept := s.parked[:0]
	for _, t := range s.parked {
		if t.Node != nil && t.Node.Dead {
			continue
		}
		kept = append(kept, t)
	}
	for i := len(kept); i < len(s.parked); i++ {
		s.parked[i] = nil
	}
	s.parked = kept
	now := time.Now()
	var soonest time.Time
	for _, t := range s.parked {
		if t.Node != nil && t.Node.Stall.After(now) {
			if soonest.IsZero() || t.Node.Stall.Before(soonest) {
				soonest = t.Node.Stall
			}
			continue
		}
		ready = append(ready, t)
	}
	s.mu.Unlock()
	if len(ready) == 0 {
		d := 240 * time.Hour
		if !soonest.IsZero() {
			d = soonest.Sub(now)
		}
		tm := time.NewTimer(d)
		select {
		case <-s.wake:
		case <-tm.C:
			if soonest.IsZero() {
				s.Deadlock = s.describe()
			}
		}
		tm.Stop()
		return nil
	}
	if s.Cfg.StallPct > 0 && !s.Plan.Off && s.Rng.Intn(1000) < s.Cfg.StallPct {
		d := time.Duration(s.Rng.Int63n(int64(s.Cfg.MaxStall) + 1))
		s.Probe("sched.stall")
		time.Sleep(d)
		return nil
	}
	sort.Slice(ready, func(i, j int) bool { return ready[i].ID < ready[j].ID })
	var t *Task
	if len(ready) == 1 {
		t = ready[0]
	} else {
		switch s.Cfg.Mode {
		case 1:
			for _, r := range ready {
				if t == nil || r.prio > t.prio {
					t = r
				}
			}
			if s.Rng.Intn(40) == 0 { // priority change point
				t.prio = -s.Steps
			}
		case 2:
			t = ready[0]
			if s.Rng.Intn(8) == 0 {
				t = ready[s.Rng.Intn(len(ready))]
			}
		default:
			t = ready[s.Rng.Intn(len(ready))]
		}
		s.Switches++
		s.Hash = (s.Hash ^ uint64(t.ID)) * 1099511628211
	}
	s.mu.Lock()
	for i, p := range s.parked {
		if p == t {
			s.parked = append(s.parked[:i], s.parked[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
	return t
}

func (s *Sim) describe() string {
	var b strings.Builder
	ids := make([]int, 0)
	for id := range s.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := s.tasks[id]
		if t.Node != nil && t.Node.Dead {
			continue
		}
		fmt.Fprintf(&b, "%s/%s#%d state=%d; ", nodeName(t.Node), t.Name, t.ID, t.state)
	}
	return b.String()
}

// park hands control back to the scheduler; the task is ready again at once.
// It is also what a task does after a real blocking operation returned.
func (t *Task) park() {
	s := S
	s.mu.Lock()
	t.state = stReady
	s.parked = append(s.parked, t)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
	<-t.gate
	t.checkSim(s)
}

func (t *Task) checkSim(s *Sim) {
	if S != s {
		// the run this task belonged to is over
		select {}
	}
}

// block suspends the running task until ready(t) is called on it.
func (t *Task) block() {
	s := S
	t.state = stBlocked
	<-t.gate
	t.checkSim(s)
}

// ready makes a blocked task schedulable. Called by the running task (or the
// scheduler's own context).
func (s *Sim) ready(t *Task) {
	if t.state != stBlocked {
		return
	}
	s.mu.Lock()
	t.state = stReady
	s.parked = append(s.parked, t)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func callerName(skip int) string {
	_, f, l, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, l)
}

func (s *Sim) spawn(name string, node *Node, f func()) *Task {
	s.mu.Lock()
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Node: node, gate: make(chan struct{})}
	s.tasks[t.ID] = t
	s.mu.Unlock()
	if s.Cfg.Mode == 1 {
		t.prio = s.Rng.Intn(1 << 20)
	}
	s.mu.Lock()
	s.parked = append(s.parked, t)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
	go func() {
		debug.SetPanicOnFault(true)
		<-t.gate
		t.checkSim(s)
		defer func() {
			if r := recover(); r != nil {
				s.crashed(t, r, debug.Stack())
			}
			t.state = stDone
			s.mu.Lock()
			delete(s.tasks, t.ID)
			s.mu.Unlock()
		}()
		f()
	}()
	return t
}

// crashed handles a panic that nothing recovered: it ends the process.
func (s *Sim) crashed(t *Task, r any, stack []byte) {
	if s != S {
		return
	}
	msg := fmt.Sprintf("%v", r)
	where := panicSite(string(stack))
	s.Panics = append(s.Panics, fmt.Sprintf("%s/%s: %s at %s", nodeName(t.Node), t.Name, msg, where))
	Logf("PANIC %s\n%s", msg, stack)
	n := t.Node
	if n == nil {
		if s.HarnessPanic == "" {
			s.HarnessPanic = msg + "\n" + string(stack)
		}
		s.mainDone = true
		return
	}
	if n.Panic == "" {
		n.Panic = msg
		n.PanicAt = where
		n.PanicStack = string(stack)
	}
	if s.OnPanic != nil {
		s.OnPanic(n, t, msg+"\n"+string(stack))
	}
	n.Kill()
}

// Stop ends the run.
func (s *Sim) Stop() { s.mainDone = true }

// panicSite names the first frame of a module under test below the panic.
func panicSite(stack string) string {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		i = 0
	}
	lines := strings.Split(stack[i:], "\n")
	for k, l := range lines {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "/") || !strings.Contains(l, "/src/") || strings.Contains(l, "/usr/") {
			continue
		}
		j := strings.Index(l, "/ws/src/")
		if j < 0 {
			continue
		}
		fn := strings.TrimSpace(lines[k-1])
		if p := strings.LastIndexByte(fn, '('); p > 0 {
			fn = fn[:p]
		}
		return fn
	}
	return "?"
}

// Go starts f as a task of the calling task's node.
func Go(f func()) {
	s := S
	if s == nil || s.Cur == nil {
		if s == nil {
			go f()
			return
		}
		s.spawn(callerName(2), nil, f)
		return
	}
	s.spawn(callerName(2), s.Cur.Node, f)
	Y()
}

// GoOn starts f as a task of node n.
func GoOn(n *Node, name string, f func()) *Task { return S.spawn(name, n, f) }

// GoNamed starts a harness task on the current node.
func GoNamed(name string, f func()) *Task {
	var n *Node
	if S.Cur != nil {
		n = S.Cur.Node
	}
	return S.spawn(name, n, f)
}

// Y is a potential preemption point.
func Y() {
	s := S
	if s == nil || reiniting {
		return
	}
	t := s.Cur
	if t == nil {
		return
	}
	if s.spin++; s.spin > 30_000_000 {
		// endless loop without a blocking operation
		s.Livelock = nodeName(t.Node) + "/" + t.Name
		Logf("LIVELOCK\n%s", debug.Stack())
		t.state = stBlocked
		select {}
	}
	if s.Cfg.PreemptPct > 0 && s.Rng.Intn(1000) < s.Cfg.PreemptPct {
		t.park()
	}
}

// Yield always gives every other ready task a chance.
func Yield() {
	s := S
	if s == nil || s.Cur == nil {
		return
	}
	s.Cur.park()
}

// Extern brackets a real, possibly blocking operation done by the running task.
func Extern(op func()) {
	s := S
	if s == nil || s.Cur == nil {
		op()
		return
	}
	t := s.Cur
	t.state = stExtern
	op()
	t.checkSim(s)
	t.park()
}

// Sleep lets virtual time pass for the running task.
func Sleep(d time.Duration) {
	s := S
	if s == nil || s.Cur == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	Extern(func() { time.Sleep(d) })
}

// WallNow is the wall clock of the machine the running task is on.
func WallNow() time.Time {
	t := time.Now()
	if s := S; s != nil && s.Cur != nil && s.Cur.Node != nil {
		t = t.Add(s.Cur.Node.Skew)
	}
	return t
}

// NowMs is the true time in milliseconds.
func NowMs() int64 { return time.Now().UnixMilli() }

// AfterFunc runs f as a task of the current node after d.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	s := S
	if s == nil || s.Cur == nil {
		return time.AfterFunc(d, f)
	}
	n, name := s.Cur.Node, callerName(2)
	// Timer callbacks that expire at one instant run concurrently; take the task
	// identity now so that it does not depend on their order.
	s.mu.Lock()
	s.nextID++
	id := s.nextID
	s.mu.Unlock()
	return time.AfterFunc(d, func() {
		if S != s {
			return
		}
		debug.SetPanicOnFault(true)
		t := &Task{ID: id, Name: name, Node: n, gate: make(chan struct{})}
		s.mu.Lock()
		s.tasks[id] = t
		s.mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				s.crashed(t, r, debug.Stack())
			}
			t.state = stDone
			s.mu.Lock()
			delete(s.tasks, t.ID)
			s.mu.Unlock()
		}()
		t.park()
		f()
	})
}

// NewNode creates a simulated process with pristine package variables.
func NewNode(name, module string) *Node {
	n := &Node{Name: name, Module: module, globals: map[string][]any{}, Sim: S, Data: map[string]any{}}
	S.nodes = append(S.nodes, n)
	return n
}

// Kill crashes the node: its tasks never run again.
func (n *Node) Kill() {
	if n.Dead {
		return
	}
	n.Dead = true
	Logf("node %s crashed", n.Name)
	for _, f := range n.OnCrash {
		f()
	}
}

// CurNode returns the node of the running task.
func CurNode() *Node {
	if S == nil || S.Cur == nil {
		return nil
	}
	return S.Cur.Node
}

// CurTask returns the running task.
func CurTask() *Task {
	if S == nil {
		return nil
	}
	return S.Cur
}

// Invoke runs f with node n as the current node, on the running task.
func (n *Node) Invoke(f func()) {
	t := S.Cur
	old := t.Node
	t.Node = n
	S.switchTo(t)
	defer func() {
		t.Node = old
		S.switchTo(t)
	}()
	f()
}
