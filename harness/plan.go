package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	sim "verifsim"
)

// Op is one step of a workload.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	D int    `json:"d,omitempty"`
	S string `json:"s,omitempty"`
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d,%d,%d,%s)", o.K, o.A, o.B, o.C, o.D, o.S) }

// Plan is everything that decides one run besides the code.
type Plan struct {
	Prop     string         `json:"property"`
	Scenario string         `json:"scenario"`
	Seed     int64          `json:"seed"`
	Tier     string         `json:"tier"`
	Cfg      sim.Config     `json:"sched"`
	P        map[string]int `json:"params"`
	Ops      []Op           `json:"ops"`
	Rates    map[string]int `json:"fault_rates"`
	Max      int            `json:"max_faults"`
	Keep     []int          `json:"keep_faults"` // nil: all
	MaxTime  time.Duration  `json:"max_sim_time"`

	known []*Finding
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	must(json.Unmarshal(b, q))
	return q
}

// Gen helps building plans.
type Gen struct {
	*rand.Rand
	P *Plan
}

func (g *Gen) Chance(pct int) bool { return g.Intn(100) < pct }
func (g *Gen) Pick(xs ...int) int  { return xs[g.Intn(len(xs))] }
func (g *Gen) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + g.Intn(hi-lo+1)
}
func (g *Gen) Set(k string, v int) int { g.P.P[k] = v; return v }
func (g *Gen) Op(k string, a ...int) {
	o := Op{K: k}
	for i, v := range a {
		switch i {
		case 0:
			o.A = v
		case 1:
			o.B = v
		case 2:
			o.C = v
		case 3:
			o.D = v
		}
	}
	g.P.Ops = append(g.P.Ops, o)
}
func (g *Gen) Rate(kind string, permille int) { g.P.Rates[kind] = permille }

// Scenario is a family of runs that decides a property.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Gen    func(g *Gen)
	Run    func(w *World)
	Steps  int
}

var scenarios = map[string][]*Scenario{}

func register(s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	scenarios[s.Prop] = append(scenarios[s.Prop], s)
}

func find(prop, name string) *Scenario {
	for _, s := range scenarios[prop] {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func hash64(parts ...any) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return int64(h.Sum64() >> 1)
}

// NewPlan derives the plan of run number i of a property.
func NewPlan(prop string, base int64, i int, tier string) *Plan {
	list := scenarios[prop]
	total := 0
	for _, s := range list {
		total += s.Weight
	}
	k := i % total
	var sc *Scenario
	for _, s := range list {
		if k < s.Weight {
			sc = s
			break
		}
		k -= s.Weight
	}
	return planFor(sc, hash64(base, prop, i), tier)
}

func planFor(sc *Scenario, seed int64, tier string) *Plan {
	p := &Plan{Prop: sc.Prop, Scenario: sc.Name, Seed: seed, Tier: tier, P: map[string]int{}, Rates: map[string]int{}}
	g := &Gen{Rand: sim.NewRand(seed ^ 0x5eed), P: p}
	p.Cfg = sim.Config{Mode: g.Pick(0, 0, 1, 2), PreemptPct: g.Pick(0, 2, 10, 40, 150), MaxSteps: 3_000_000}
	if g.Chance(25) {
		p.Cfg.StallPct = g.Pick(1, 5)
		p.Cfg.MaxStall = time.Duration(g.Pick(1, 20, 300)) * time.Millisecond
	}
	if sc.Steps > 0 {
		p.Cfg.MaxSteps = sc.Steps
	}
	p.MaxTime = 12 * time.Hour
	sc.Gen(g)
	return p
}

// Finding is a defect of the code under test that is recorded and not repaired.
type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Class    string `json:"class"` // regular expression on the violation class
	Msg      string `json:"match,omitempty"`
	What     string `json:"what"`
	Status   string `json:"status"` // known or fixed

	cre, mre *regexp.Regexp
}

func (f *Finding) Match(prop, class, msg string) bool {
	if f.Status != "known" || f.Property != prop {
		return false
	}
	return f.cre.MatchString(class) && f.mre.MatchString(msg)
}

func loadFindings(dir string) []*Finding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []*Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		panic(fmt.Sprintf("known_findings.json: %v", err))
	}
	for _, f := range fs {
		if f.Status == "known" && f.Class == "" {
			panic("known finding without class: " + f.ID)
		}
		f.cre = regexp.MustCompile("^(?:" + f.Class + ")$")
		f.mre = regexp.MustCompile(f.Msg)
	}
	return fs
}

// Result is what a run reports.
type Result struct {
	Index    int              `json:"index"`
	Seed     int64            `json:"seed"`
	Scenario string           `json:"scenario"`
	Viol     *Violation       `json:"violation,omitempty"`
	Known    []Violation      `json:"known,omitempty"`
	Err      string           `json:"err,omitempty"`
	Steps    int              `json:"steps"`
	Switches int              `json:"switches"`
	Hash     uint64           `json:"hash"`
	SimTime  float64          `json:"sim_s"`
	Wall     float64          `json:"wall_s"`
	Probes   map[string]int   `json:"probes,omitempty"`
	Faults   map[string]int   `json:"faults,omitempty"`
	Fired    []sim.FiredFault `json:"fired,omitempty"`
	NFaults  int              `json:"nfaults"`
	Ops      int              `json:"ops"`
	Nontriv  int              `json:"nontrivial"`
	Overrun  bool             `json:"overrun,omitempty"`
	Notes    []string         `json:"notes,omitempty"`
	Panics   []string         `json:"panics,omitempty"`
	Log      []string         `json:"log,omitempty"`
	LogHash  uint64           `json:"log_hash,omitempty"`
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func trunc(s string, n int) string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		s = strings.ReplaceAll(s, d, "$DIR")
	}
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
