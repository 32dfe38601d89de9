package harness

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	sim "verifsim"
)

// worker is one simulator process; it is replaced after a number of runs
// because finished runs leave parked goroutines behind.
type worker struct {
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	outF *os.File
	runs int
	errb *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16<<10 {
		t.b = append([]byte(nil), t.b[len(t.b)-(8<<10):]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startWorker(dir string) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	jr, jw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(self, "-test.run", "^TestWorker$", "-test.timeout", "0", "-test.v=false")
	procs := "2"
	if v := os.Getenv("VERIF_PROCS"); v != "" {
		procs = v
	}
	c.Env = append(os.Environ(), "VERIF_WORKER=1", "VERIF_DIR="+dir, "GOMAXPROCS="+procs, "GOTRACEBACK=all", "GODEBUG=")
	c.ExtraFiles = []*os.File{jr, rw}
	w := &worker{cmd: c, in: jw, outF: rr, out: bufio.NewReaderSize(rr, 1<<20), errb: &tailBuf{}}
	if os.Getenv("VERIF_WORKER_LOG")+os.Getenv("VERIF_APPLOG") != "" {
		c.Stdout, c.Stderr = os.Stderr, os.Stderr
	} else {
		c.Stdout, c.Stderr = w.errb, w.errb
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	jr.Close()
	rw.Close()
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
	w.outF.Close()
}

func (w *worker) run(j job, limit time.Duration) (*Result, error) {
	b, err := json.Marshal(j)
	if err != nil {
		return nil, err
	}
	type ans struct {
		r   *Result
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := w.in.Write(append(b, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		line, err := w.out.ReadBytes('\n')
		if err != nil {
			ch <- ans{nil, err}
			return
		}
		r := &Result{}
		err = json.Unmarshal(line, r)
		ch <- ans{r, err}
	}()
	w.runs++
	select {
	case a := <-ch:
		if a.err != nil {
			return nil, fmt.Errorf("worker died: %v\n%s", a.err, w.errb.String())
		}
		return a.r, nil
	case <-time.After(limit):
		w.cmd.Process.Kill()
		return nil, fmt.Errorf("run exceeded %v of wall time\n%s", limit, w.errb.String())
	}
}

// pool hands jobs to workers.
type pool struct {
	dir     string
	n       int
	perProc int
	limit   time.Duration
	mu      sync.Mutex
	idle    []*worker
}

func newPool(dir string) *pool {
	n := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VERIF_JOBS")); err == nil && v > 0 {
		n = v
	}
	return &pool{dir: dir, n: n, perProc: 12, limit: 240 * time.Second}
}

func (p *pool) do(j job) *Result {
	for attempt := 0; ; attempt++ {
		p.mu.Lock()
		var w *worker
		if k := len(p.idle); k > 0 {
			w = p.idle[k-1]
			p.idle = p.idle[:k-1]
		}
		p.mu.Unlock()
		if w == nil {
			var err error
			if w, err = startWorker(p.dir); err != nil {
				return &Result{Index: j.Index, Err: err.Error()}
			}
		}
		r, err := w.run(j, p.limit)
		if err != nil {
			w.stop()
			if attempt == 0 && w.runs > 1 {
				continue // once more in a fresh process
			}
			return &Result{Index: j.Index, Seed: j.Plan.Seed, Scenario: j.Plan.Scenario, Err: err.Error()}
		}
		if w.runs >= p.perProc {
			w.stop()
		} else {
			p.mu.Lock()
			p.idle = append(p.idle, w)
			p.mu.Unlock()
		}
		return r
	}
}

func (p *pool) close() {
	for _, w := range p.idle {
		w.stop()
	}
	p.idle = nil
}

// batch runs several plans in parallel and returns their results in order.
func (p *pool) batch(plans []*Plan, log bool) []*Result {
	res := make([]*Result, len(plans))
	var wg sync.WaitGroup
	sem := make(chan struct{}, p.n)
	for i, pl := range plans {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			res[i] = p.do(job{Index: i, Plan: pl, Log: log})
			<-sem
		}()
	}
	wg.Wait()
	return res
}

type replayFile struct {
	Property  string           `json:"property"`
	Violation *Violation       `json:"violation"`
	Plan      *Plan            `json:"plan"`
	Faults    []sim.FiredFault `json:"fault_trace"`
	Hash      uint64           `json:"schedule_hash"`
	Steps     int              `json:"steps"`
	Note      string           `json:"note"`
	Tail      []string         `json:"event_log_tail"`
}

// Main is the command line of the checker.
func Main(args []string) int {
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: check PROP | replay FILE | run PROP SCENARIO SEED | selftest [PROP...] | list")
		return 2
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir, _ = os.Getwd()
	}
	switch args[0] {
	case "list":
		for _, p := range sortedKeys(scenarios) {
			for _, s := range scenarios[p] {
				fmt.Printf("%s %s weight %d\n", p, s.Name, s.Weight)
			}
		}
		return 0
	case "check":
		return check(dir, args[1:])
	case "replay":
		return replay(dir, args[1:])
	case "run":
		return runOne(dir, args[1:])
	case "selftest":
		return selftest(dir, args[1:])
	}
	fmt.Fprintln(os.Stderr, "unknown command", args[0])
	return 2
}

func runOne(dir string, args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	n := fs.Int("n", 1, "runs")
	seed := fs.Int64("seed", 1, "base seed")
	raw := fs.Int64("raw", 0, "exact seed of a plan")
	verbose := fs.Bool("v", false, "event log")
	scen := fs.String("s", "", "scenario")
	min := fs.Bool("min", false, "minimise the first failure")
	fs.Parse(args[1:])
	p := newPool(dir)
	defer p.close()
	var plans []*Plan
	for i := 0; len(plans) < *n; i++ {
		pl := NewPlan(args[0], *seed, i, "quick")
		if *scen != "" {
			sc := find(args[0], *scen)
			if sc == nil {
				fmt.Println("no such scenario")
				return 2
			}
			pl = planFor(sc, hash64(*seed, args[0], *scen, i), "quick")
			if *raw != 0 {
				pl = planFor(sc, *raw, "quick")
			}
		}
		plans = append(plans, pl)
	}
	rs := p.batch(plans, *verbose)
	classes := map[string]int{}
	first := map[string]*Result{}
	for i, r := range rs {
		st := "ok"
		key := "ok"
		if r.Err != "" {
			st = "ERR " + trunc(r.Err, 3000)
			key = "ERR " + strings.SplitN(trunc(r.Err, 200), "\n", 2)[0]
		} else if r.Viol != nil {
			st = "VIOL " + r.Viol.Class + ": " + r.Viol.Msg
			key = r.Viol.Class
		} else if len(r.Known) > 0 {
			st = "known " + r.Known[0].Class
			key = st
		} else if r.Overrun {
			st = "OVERRUN"
			key = st
		}
		classes[key]++
		if first[key] == nil {
			first[key] = r
		}
		if *n <= 20 || *verbose {
			fmt.Printf("%d %s seed=%d steps=%d sw=%d sim=%.1fs wall=%.2fs ops=%d nontriv=%d faults=%v probes=%v panics=%v notes=%v\n   %s\n", i, r.Scenario, r.Seed, r.Steps, r.Switches, r.SimTime, r.Wall, r.Ops, r.Nontriv, r.Faults, r.Probes, r.Panics, r.Notes, st)
		}
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if *n > 1 {
		for _, k := range sortedKeys(classes) {
			f := first[k]
			m := ""
			if f.Viol != nil {
				m = f.Viol.Msg
			}
			if f.Err != "" {
				m = trunc(f.Err, 3000)
			}
			fmt.Printf("== %d x %s  (first: %s seed=%d) %s\n", classes[k], k, f.Scenario, f.Seed, m)
		}
		agg := newAgg()
		for i, r := range rs {
			agg.add(plans[i], r)
		}
		fmt.Printf("faults=%v probes=%v wall=%.1fs sim=%.0fs steps=%d nontriv=%d distinct=%d\n", agg.faults, agg.probes, agg.wall, agg.sim, agg.steps, agg.nontrivRuns, len(agg.hashes))
	}
	if *min {
		for i, r := range rs {
			if r.Viol != nil {
				m, mr := minimise(p, plans[i], r, 120*time.Second)
				f := writeReplay(dir, m, mr)
				fmt.Println("minimised:", f)
				fmt.Println(mr.Viol.Class, mr.Viol.Msg)
				for _, o := range m.Ops {
					fmt.Println("  ", o)
				}
				for _, x := range mr.Fired {
					fmt.Println("   fault", x)
				}
				break
			}
		}
	}
	return 0
}

func same(r *Result, class string) bool { return r.Err == "" && r.Viol != nil && r.Viol.Class == class }

// minimise shrinks the workload and the faults while the same class fails.
func minimise(p *pool, pl *Plan, r *Result, budget time.Duration) (*Plan, *Result) {
	deadline := time.Now().Add(budget)
	best, bestR := pl.clone(), r
	class := r.Viol.Class
	try := func(cands []*Plan) bool {
		if len(cands) == 0 || time.Now().After(deadline) {
			return false
		}
		rs := p.batch(cands, false)
		for i, x := range rs {
			if same(x, class) {
				best, bestR = cands[i], x
				return true
			}
		}
		return false
	}
	withKeep := func(k []int) *Plan { q := best.clone(); q.Keep = k; return q }
	fired := func() []int {
		k := []int{}
		for _, f := range bestR.Fired {
			k = append(k, f.Index)
		}
		return k
	}
	shrinkFaults := func() {
		if !try([]*Plan{withKeep([]int{})}) {
			if !try([]*Plan{withKeep(fired())}) {
				return
			}
			for chunk := (len(best.Keep) + 1) / 2; chunk >= 1 && time.Now().Before(deadline); {
				var c []*Plan
				for i := 0; i < len(best.Keep); i += chunk {
					e := i + chunk
					if e > len(best.Keep) {
						e = len(best.Keep)
					}
					k := append(append([]int{}, best.Keep[:i]...), best.Keep[e:]...)
					c = append(c, withKeep(k))
				}
				if try(c) {
					if chunk > len(best.Keep) {
						chunk = len(best.Keep)
					}
					if len(best.Keep) == 0 {
						break
					}
					continue
				}
				if chunk == 1 {
					break
				}
				chunk = (chunk + 1) / 2
			}
		}
	}
	shrinkOps := func() {
		for chunk := (len(best.Ops) + 1) / 2; chunk >= 1 && len(best.Ops) > 0 && time.Now().Before(deadline); {
			var c []*Plan
			for i := 0; i < len(best.Ops); i += chunk {
				e := i + chunk
				if e > len(best.Ops) {
					e = len(best.Ops)
				}
				q := best.clone()
				q.Ops = append(append([]Op{}, best.Ops[:i]...), best.Ops[e:]...)
				c = append(c, q)
			}
			if try(c) {
				if chunk > len(best.Ops) {
					chunk = len(best.Ops)
				}
				continue
			}
			if chunk == 1 {
				break
			}
			chunk = (chunk + 1) / 2
		}
	}
	shrinkFaults()
	shrinkOps()
	if len(best.Keep) > 0 {
		shrinkFaults()
	}
	var c []*Plan
	for _, f := range []func(*Plan){
		func(q *Plan) { q.Cfg.Mode, q.Cfg.PreemptPct, q.Cfg.StallPct = 2, 0, 0 },
		func(q *Plan) { q.Cfg.PreemptPct, q.Cfg.StallPct = 0, 0 },
		func(q *Plan) { q.Cfg.StallPct = 0 },
	} {
		q := best.clone()
		f(q)
		c = append(c, q)
	}
	if try(c) {
		shrinkOps()
	}
	return best, bestR
}

func writeReplay(dir string, pl *Plan, r *Result) string {
	rd := filepath.Join(dir, ".build", "replays")
	os.MkdirAll(rd, 0o755)
	f := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", pl.Prop, pl.Scenario, pl.Seed))
	rf := replayFile{Property: pl.Prop, Violation: r.Viol, Plan: pl, Faults: r.Fired, Hash: r.Hash, Steps: r.Steps,
		Note: "run ./replay.sh FILE in /verif against the same tree"}
	if n := len(r.Log); n > 0 {
		k := n - 400
		if k < 0 {
			k = 0
		}
		rf.Tail = r.Log[k:]
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func replay(dir string, args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := newPool(dir)
	defer p.close()
	r := p.do(job{Plan: rf.Plan, Log: true})
	if len(args) > 1 && args[1] == "-v" {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if r.Err != "" {
		fmt.Println("error:", r.Err)
		return 2
	}
	if r.Viol == nil {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Printf("%s: %s (at %s, step %d)\n", r.Viol.Class, r.Viol.Msg, r.Viol.At, r.Viol.Step)
	if r.Hash != rf.Hash || r.Steps != rf.Steps {
		fmt.Println("note: the schedule differs from the recorded one (another tree?)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}

type agg struct {
	faults, probes  map[string]int
	wall, sim       float64
	steps, sw, runs int
	ops, nontriv    int
	nontrivRuns     int
	hashes          map[uint64]bool
	perScenario     map[string]int
	known           map[string]int
	overruns        int
	samples         []any
	panics          map[string]int
	noFault         int
}

func newAgg() *agg {
	return &agg{faults: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]bool{}, perScenario: map[string]int{}, known: map[string]int{}, panics: map[string]int{}}
}

func (a *agg) add(p *Plan, r *Result) {
	a.runs++
	for k, v := range r.Faults {
		a.faults[k] += v
	}
	for k, v := range r.Probes {
		a.probes[k] += v
	}
	a.wall += r.Wall
	a.sim += r.SimTime
	a.steps += r.Steps
	a.sw += r.Switches
	a.ops += r.Ops
	a.nontriv += r.Nontriv
	a.perScenario[r.Scenario]++
	if r.Nontriv > 0 {
		a.nontrivRuns++
		a.hashes[r.Hash] = true
	}
	if r.NFaults == 0 {
		a.noFault++
	}
	if r.Overrun {
		a.overruns++
	}
	for _, k := range r.Known {
		a.known[k.Class]++
	}
	for _, x := range r.Panics {
		a.panics[trunc(strings.ReplaceAll(x, "\n", " "), 160)]++
	}
	if len(a.samples) < 3 && r.Nontriv > 0 && r.Err == "" {
		ops := make([]string, 0)
		for i, o := range p.Ops {
			if i == 12 {
				ops = append(ops, fmt.Sprintf("... %d more", len(p.Ops)-i))
				break
			}
			ops = append(ops, o.String())
		}
		var fl []string
		for i, f := range r.Fired {
			if i == 8 {
				fl = append(fl, "...")
				break
			}
			fl = append(fl, f.Kind+" at "+f.At+" "+trunc(f.Where, 80))
		}
		a.samples = append(a.samples, map[string]any{"scenario": p.Scenario, "seed": p.Seed, "params": p.P, "ops": ops, "faults": fl, "steps": r.Steps, "simulated_s": r.SimTime, "schedule_hash": fmt.Sprintf("%016x", r.Hash)})
	}
}

// Budget of a check. Overridden per property where runs are slower.
type budget struct {
	quick, thorough int           // runs
	quickWall       time.Duration // cap
	thoroughWall    time.Duration
}

var budgets = map[string]budget{}

func budgetOf(prop string) budget {
	b := budgets[prop]
	if b.quick == 0 {
		b.quick = 400
	}
	if b.thorough == 0 {
		b.thorough = 20000
	}
	if b.quickWall == 0 {
		b.quickWall = 150 * time.Second
	}
	if b.thoroughWall == 0 {
		b.thoroughWall = 700 * time.Second
	}
	return b
}

func check(dir string, args []string) int {
	if len(args) < 1 || scenarios[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "check: unknown property", args)
		return 2
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	base := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		base = v
	}
	b := budgetOf(prop)
	runs, wall := b.quick, b.quickWall
	if tier == "thorough" {
		runs, wall = b.thorough, b.thoroughWall
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil {
		runs = v
	}
	fmt.Printf("check property=%s tier=%s VERIF_SEED=%d runs=%d\n", prop, tier, base, runs)
	start := time.Now()
	deadline := start.Add(wall)
	findings := loadFindings(dir)
	p := newPool(dir)
	defer p.close()

	a := newAgg()
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	firstBad := -1
	var badPlan *Plan
	var badRes *Result
	var errs []string
	for k := 0; k < p.n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= runs || firstBad >= 0 || len(errs) > 2 || (time.Now().After(deadline) && next >= len(scenarios[prop])) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				pl := NewPlan(prop, base, i, tier)
				r := p.do(job{Index: i, Plan: pl})
				mu.Lock()
				a.add(pl, r)
				if r.Err != "" {
					errs = append(errs, fmt.Sprintf("run %d scenario %s seed %d: %s", i, pl.Scenario, pl.Seed, r.Err))
				} else if r.Viol != nil && (firstBad < 0 || i < firstBad) {
					firstBad, badPlan, badRes = i, pl, r
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explore := time.Since(start)

	violations := 0
	rc := 0
	var vioLine string
	if badRes != nil {
		violations = 1
		fmt.Printf("run %d (scenario %s, seed %d) violates %s: %s: %s\n", firstBad, badPlan.Scenario, badPlan.Seed, prop, badRes.Viol.Class, badRes.Viol.Msg)
		// the same plan in a fresh process must fail in the same way
		fresh := newPool(dir)
		ok := false
		for try := 0; try < 3 && !ok; try++ {
			ok = same(fresh.do(job{Plan: badPlan}), badRes.Viol.Class)
		}
		fresh.close()
		if !ok {
			fmt.Fprintf(os.Stderr, "the violation did not replay in a fresh process: simulator error\n")
			rc = 2
		} else {
			mb := 60 * time.Second
			if tier == "thorough" {
				mb = 120 * time.Second
			}
			m, mr := minimise(p, badPlan, badRes, mb)
			fresh := newPool(dir)
			lr := fresh.do(job{Plan: m, Log: true})
			fresh.close()
			if !same(lr, badRes.Viol.Class) {
				lr, m = badRes, badPlan
			}
			_ = mr
			f := writeReplay(dir, m, lr)
			fmt.Printf("minimised to %d operations and %d faults: %s: %s\n", len(m.Ops), len(lr.Fired), lr.Viol.Class, lr.Viol.Msg)
			vioLine = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f)
			rc = 1
		}
	} else if len(errs) > 0 {
		sort.Strings(errs)
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		rc = 2
	}
	if rc == 0 && a.runs > 20 && a.overruns*5 > a.runs {
		fmt.Fprintf(os.Stderr, "error: %d of %d runs exceeded the step budget\n", a.overruns, a.runs)
		rc = 2
	}
	if rc == 0 && a.nontrivRuns == 0 {
		fmt.Fprintf(os.Stderr, "error: no run did anything that the property is about\n")
		rc = 2
	}
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" {
			hits := 0
			for c, n := range a.known {
				if f.cre.MatchString(c) {
					hits += n
				}
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s; %d of %d runs met it]\n", prop, f.What, f.ID, hits, a.runs)
		}
	}
	secs := time.Since(start).Seconds()
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         a.runs,
			"distinct_nontrivial": len(a.hashes),
			"rule":                "one evaluation is one simulated run (plan drawn from VERIF_SEED, property and run number); it is non-trivial if the oracle judged at least one operation whose outcome the property constrains, and distinct by the hash of all scheduling decisions",
			"samples":             a.samples,
			"runs_per_scenario":   a.perScenario,
			"runs_per_hour":       int(float64(a.runs) / explore.Hours()),
			"seeds_per_hour":      int(float64(a.runs) / explore.Hours()),
			"simulated_seconds":   int(a.sim),
			"scheduler_steps":     a.steps,
			"scheduler_choices":   a.sw,
			"operations":          a.ops,
			"operations_judged":   a.nontriv,
			"faults_injected":     a.faults,
			"runs_without_fault":  a.noFault,
			"probes":              a.probes,
			"process_panics":      a.panics,
			"known_finding_hits":  a.known,
			"runs_over_budget":    a.overruns,
			"real_code":           "metaserver, objectserver, apiserver, adminserver, common (all of it, instrumented from the working tree); hashicorp/raft, raft-boltdb, raft-grpc-transport, bbolt, bigcache, directio, s2, etcd concurrency, gin, msgp, reedsolomon",
			"stubs":               "etcd service (model), badger (transactional map), gRPC and HTTP transport (simulated network), operating system files (real files on a scratch directory behind a fault layer), clocks, randomness, signals, gopsutil",
		},
		"assumptions": []string{
			"simulated network, disk and etcd behave as described in DESIGN.md",
			"a clean batch is evidence, not proof: schedules and faults are sampled",
		},
		"wall_s":     secs,
		"violations": violations,
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), eb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%d runs, %d distinct non-trivial, %.0f simulated s, %d faults %v, %.1f s\n", a.runs, len(a.hashes), a.sim, sum(a.faults), a.faults, secs)
	if vioLine != "" {
		fmt.Println(vioLine)
	}
	return rc
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

// selftest runs plans twice in different processes and compares the event logs.
func selftest(dir string, args []string) int {
	props := args
	n := 10
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil {
		n = v
	}
	if len(props) == 0 {
		props = sortedKeys(scenarios)
	}
	bad := 0
	for _, prop := range props {
		var plans []*Plan
		for i := 0; i < n; i++ {
			plans = append(plans, NewPlan(prop, 4242, i, "quick"))
		}
		p1 := newPool(dir)
		a := p1.batch(plans, true)
		p1.close()
		os.Setenv("VERIF_PROCS", "1")
		p2 := newPool(dir)
		p2.n = 3
		p2.perProc = 1
		b := p2.batch(plans, true)
		p2.close()
		os.Unsetenv("VERIF_PROCS")
		diff := 0
		for i := range a {
			if a[i].Err != "" || b[i].Err != "" {
				fmt.Printf("%s run %d: error %s %s\n", prop, i, trunc(a[i].Err, 2000), trunc(b[i].Err, 300))
				diff++
				continue
			}
			if a[i].LogHash != b[i].LogHash || a[i].Hash != b[i].Hash || a[i].Steps != b[i].Steps {
				diff++
				for k := range a[i].Log {
					if k >= len(b[i].Log) || a[i].Log[k] != b[i].Log[k] {
						o := "<end>"
						if k < len(b[i].Log) {
							o = b[i].Log[k]
						}
						fmt.Printf("%s run %d (%s seed %d) diverges at line %d:\n  %s\n  %s\n", prop, i, plans[i].Scenario, plans[i].Seed, k, trunc(a[i].Log[k], 300), trunc(o, 300))
						break
					}
				}
			}
		}
		fmt.Printf("selftest %s: %d runs twice, %d differ\n", prop, n, diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}
