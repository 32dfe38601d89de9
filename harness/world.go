// Package harness runs whole goodfs clusters under the simulator and decides
// the properties of /verif/properties.jsonl.
package harness

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	sim "verifsim"
	"verifsim/simetcd"
	"verifsim/simnet"
	"verifsim/simos"
	"verifsim/simsignal"

	adminnode "adminserver/vnode"
	apinode "apiserver/vnode"
	metanode "metaserver/vnode"
	objnode "objectserver/vnode"
)

// World is one simulated deployment.
type World struct {
	S     *sim.Sim
	Plan  *Plan
	Rng   *rand.Rand // workload randomness (values only; the shape is in the plan)
	Dir   string
	Etcd  *simetcd.Cluster
	Net   *simnet.Net
	Procs []*Proc

	Viol      *Violation
	Known     []Violation
	Notes     []string
	Ops       int
	Nontriv   int
	Rejected  int
	stopCheck []func()
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"` // stable identity of what failed
	Msg   string `json:"msg"`
	At    string `json:"at"`
	Step  int    `json:"step"`
}

type stopRun struct{}

// Fail records the first violation and ends the run.
func (w *World) Fail(class, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	for _, p := range w.Procs {
		if p.Disk.Hazard { // see Disk.Hazard: what bbolt makes of it is a finding of its own
			class = "after-failed-sync:" + class
			break
		}
	}
	sim.Logf("VIOLATION %s: %s", class, msg)
	for _, k := range w.Plan.known {
		if k.Match(w.Plan.Prop, class, msg) {
			w.Known = append(w.Known, Violation{Class: class, Msg: msg, At: w.S.Now().String(), Step: w.S.Steps})
			panic(stopRun{})
		}
	}
	if w.Viol == nil {
		w.Viol = &Violation{Class: class, Msg: msg, At: w.S.Now().String(), Step: w.S.Steps}
	}
	panic(stopRun{})
}

// Logf writes to the event log.
func (w *World) Logf(f string, a ...any) { sim.Logf(f, a...) }

// Proc is a server process that can be started, crashed and restarted.
type Proc struct {
	W        *World
	Kind     string
	Name     string
	IP       string
	Port     string
	ID       string
	Dir      string
	Cfg      string
	CfgBody  func() string
	Mounts   []string
	Disk     *simos.Disk
	Node     *sim.Node
	run      func(string)
	Exited   bool
	Boots    int
	Env      map[string]string
	OnExit   func(p *Proc) // panic or exit that the harness did not ask for
	stopping bool
	Skew     time.Duration // of the machine's wall clock
}

func (p *Proc) Addr() string { return p.IP + ":" + p.Port }
func (p *Proc) Alive() bool  { return p.Node != nil && !p.Node.Dead && !p.Exited }

func (w *World) newProc(kind, name, ip, port string) *Proc {
	p := &Proc{W: w, Kind: kind, Name: name, IP: ip, Port: port, ID: name}
	p.Dir = filepath.Join(w.Dir, name)
	must(os.MkdirAll(p.Dir, 0o755))
	p.Cfg = filepath.Join(p.Dir, "conf.yaml")
	p.Disk = simos.NewDisk(name, p.Dir)
	switch kind {
	case "metaserver":
		p.run = metanode.Run
	case "objectserver":
		p.run = objnode.Run
	case "apiserver":
		p.run = apinode.Run
	case "adminserver":
		p.run = adminnode.Run
	}
	w.Procs = append(w.Procs, p)
	return p
}

// Start boots the process.
func (p *Proc) Start() {
	p.Boots++
	p.Exited = false
	p.stopping = false
	if p.CfgBody != nil {
		must(os.WriteFile(p.Cfg, []byte(p.CfgBody()), 0o644))
	}
	n := sim.NewNode(p.Name, p.Kind)
	p.Node = n
	n.Skew = p.Skew
	n.Data["ip"] = p.IP
	n.Data["cwd"] = p.Dir
	tmp := filepath.Join(p.Dir, "tmp")
	must(os.MkdirAll(tmp, 0o755))
	n.Data["tmp"] = tmp
	env := map[string]string{"SERVER_IP": p.IP}
	for k, v := range p.Env {
		env[k] = v
	}
	n.Data["env"] = env
	n.Data["mounts"] = p.Mounts
	w := p.W
	n.OnCrash = append(n.OnCrash, func() {
		simnet.N().Drop(n)
		simos.CloseAll(n)
		if p.Node == n && p.OnExit != nil && !p.stopping {
			func() {
				defer func() {
					// this may run in the task that panicked, not in one of the harness
					if r := recover(); r != nil {
						if _, ok := r.(stopRun); !ok {
							panic(r)
						}
						w.S.Stop()
					}
				}()
				p.OnExit(p)
			}()
		}
	})
	sim.Logf("start %s (boot %d)", p.Name, p.Boots)
	sim.GoOn(n, "main", func() {
		p.run(p.Cfg)
		sim.Logf("%s exited", p.Name)
		if p.Node == n {
			p.Exited = true
		}
		p.stopping = true
		n.Kill() // the process ends when main returns
	})
}

// SetSkew makes the machine's wall clock jump.
func (p *Proc) SetSkew(d time.Duration) {
	sim.Logf("clock of %s is off by %v", p.Name, d)
	p.Skew = d
	if p.Node != nil {
		p.Node.Skew = d
	}
}

// Crash kills the process; with power, unsynced writes may be lost.
func (p *Proc) Crash(power bool) {
	if p.Node == nil {
		return
	}
	p.stopping = true
	p.Node.Kill()
	if power {
		p.Disk.PowerLoss(p.W.S.Fault)
	} else {
		p.Disk.PowerKept()
	}
}

// Term sends SIGTERM.
func (p *Proc) Term() bool {
	sim.Logf("SIGTERM %s", p.Name)
	if !simsignal.Send(p.Node, syscall.SIGTERM) {
		p.Crash(false) // nobody catches it yet
		return false
	}
	return true
}

// AwaitExit waits until the process is gone.
func (p *Proc) AwaitExit(d time.Duration) bool {
	n := p.Node // not a later boot
	return p.W.Until(d, func() bool { return n.Dead })
}

// Until polls cond every 20 ms of simulated time.
func (w *World) Until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		sim.Sleep(20 * time.Millisecond)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// All runs the functions as concurrent harness tasks and waits for all of them.
func (w *World) All(fs ...func()) {
	n := len(fs)
	var stop any
	for i, f := range fs {
		f := f
		sim.GoOn(nil, fmt.Sprintf("client%d", i), func() {
			defer func() {
				if r := recover(); r != nil {
					if stop == nil {
						stop = r
					}
				}
				n--
			}()
			f()
		})
	}
	for i := 1; n > 0 && stop == nil; i++ {
		sim.Sleep(time.Duration(min(i, 20)) * time.Millisecond)
	}
	if stop != nil {
		if _, ok := stop.(stopRun); ok {
			panic(stopRun{})
		}
		panic(fmt.Sprintf("client task: %v", stop))
	}
}

// Background starts a harness task that ends with the run.
func (w *World) Background(name string, f func()) {
	sim.GoOn(nil, name, func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); !ok {
					panic(r)
				}
			}
		}()
		f()
	})
}

func (w *World) byName(n string) *Proc {
	for _, p := range w.Procs {
		if p.Name == n {
			return p
		}
	}
	return nil
}

// IPs of all processes and services.
func (w *World) IPs() []string {
	r := []string{simetcd.Host, "10.9.9.9"}
	for _, p := range w.Procs {
		r = append(r, p.IP)
	}
	return r
}

// --- configurations ---------------------------------------------------------

type MetaOpts struct {
	Cluster   bool
	Bootstrap bool
	Group     string
	Peers     []string // "id,ip:port"
	Slots     []string
	CacheMB   int
	CacheTTL  string
}

func (w *World) Meta(i int, o MetaOpts) *Proc {
	p := w.newProc("metaserver", fmt.Sprintf("meta%d", i), fmt.Sprintf("10.0.1.%d", i), "8090")
	if o.CacheMB == 0 {
		o.CacheMB = 16
	}
	if o.CacheTTL == "" {
		o.CacheTTL = "20m"
	}
	first := true
	p.CfgBody = func() string {
		if !first {
			if b, err := os.ReadFile(p.Cfg); err == nil && len(b) > 0 {
				return string(b)
			}
		}
		first = false
		var b strings.Builder
		fmt.Fprintf(&b, "port: \"%s\"\ndata-dir: %s\nlog:\n  level: ERROR\n", p.Port, filepath.Join(p.Dir, "data"))
		fmt.Fprintf(&b, "registry:\n  server-ip: %s\n  server-id: %s\n  group: goodfs\n  name: metaserver\n  interval: 5s\n", p.IP, p.ID)
		fmt.Fprintf(&b, "etcd:\n  endpoint: [\"etcd:2379\"]\n  username: root\n  password: root\n")
		fmt.Fprintf(&b, "cache:\n  ttl: %s\n  clean-interval: 10m\n  max-size: %dMB\n", o.CacheTTL, o.CacheMB)
		fmt.Fprintf(&b, "cluster:\n  enable: %v\n  bootstrap: %v\n", o.Cluster, o.Bootstrap)
		if o.Group != "" {
			fmt.Fprintf(&b, "  group-id: %s\n", o.Group)
		}
		if len(o.Peers) > 0 {
			b.WriteString("  nodes:\n")
			for _, n := range o.Peers {
				fmt.Fprintf(&b, "    - %q\n", n)
			}
		}
		if len(o.Slots) > 0 {
			b.WriteString("hash-slot:\n  slots:\n")
			for _, s := range o.Slots {
				fmt.Fprintf(&b, "    - %q\n", s)
			}
		}
		return b.String()
	}
	return p
}

type ObjOpts struct {
	Mounts   int
	Exclude  []string
	CacheMB  int
	ItemMax  string
	TTL      string
	Cleaners int
}

func (w *World) Object(i int, o ObjOpts) *Proc {
	p := w.newProc("objectserver", fmt.Sprintf("obj%d", i), fmt.Sprintf("10.0.2.%d", i), "8100")
	if o.Mounts == 0 {
		o.Mounts = 1
	}
	for m := 0; m < o.Mounts; m++ {
		d := filepath.Join(p.Dir, fmt.Sprintf("disk%d", m))
		must(os.MkdirAll(d, 0o755))
		p.Mounts = append(p.Mounts, d)
	}
	if o.CacheMB == 0 {
		o.CacheMB = 16
	}
	if o.ItemMax == "" {
		o.ItemMax = "1MB"
	}
	if o.TTL == "" {
		o.TTL = "1h"
	}
	if o.Cleaners == 0 {
		o.Cleaners = 3
	}
	p.CfgBody = func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "port: \"%s\"\nbase-mount-point: %s\nstorage-path: objects\nlog:\n  level: ERROR\n", p.Port, p.Mounts[0])
		fmt.Fprintf(&b, "temp-cleaners: %d\n", o.Cleaners)
		fmt.Fprintf(&b, "registry:\n  server-ip: %s\n  server-id: %s\n  group: goodfs\n  name: objectserver\n  interval: 5s\n", p.IP, p.ID)
		fmt.Fprintf(&b, "etcd:\n  endpoint: [\"etcd:2379\"]\n  username: root\n  password: root\n")
		fmt.Fprintf(&b, "cache:\n  ttl: %s\n  clean-interval: %s\n  max-size: %dMB\n  max-item-size: %s\n", o.TTL, o.TTL, o.CacheMB, o.ItemMax)
		fmt.Fprintf(&b, "discovery:\n  meta-serv-name: metaserver\n")
		if len(o.Exclude) > 0 {
			b.WriteString("exclude-mount-points:\n")
			for _, e := range o.Exclude {
				fmt.Fprintf(&b, "  - %s\n", e)
			}
		}
		return b.String()
	}
	return p
}

type ApiOpts struct {
	Checksum      bool
	DistinctSize  string
	DataShards    int
	ParityShards  int
	BlockPerShard int
	RewriteAsync  bool
	Copies        int
	CopyBlock     string
	Tolerance     string
	CopyAsync     bool
	Select        string
	Extra         string
	Perf          string
}

func (w *World) Api(i int, o ApiOpts) *Proc {
	p := w.newProc("apiserver", fmt.Sprintf("api%d", i), fmt.Sprintf("10.0.3.%d", i), "8080")
	if o.DataShards == 0 {
		o.DataShards = 2
	}
	if o.ParityShards == 0 {
		o.ParityShards = 1
	}
	if o.BlockPerShard == 0 {
		o.BlockPerShard = 4096
	}
	if o.Copies == 0 {
		o.Copies = 2
	}
	if o.CopyBlock == "" {
		o.CopyBlock = "4KB"
	}
	if o.Tolerance == "" {
		o.Tolerance = "0"
	}
	if o.Select == "" {
		o.Select = "random"
	}
	if o.DistinctSize == "" {
		o.DistinctSize = "0"
	}
	if o.Perf == "" {
		o.Perf = "performance:\n  enable: false\n"
	}
	p.CfgBody = func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "port: \"%s\"\nselect-strategy: %s\nlog:\n  level: ERROR\n", p.Port, o.Select)
		fmt.Fprintf(&b, "registry:\n  server-ip: %s\n  server-id: %s\n  group: goodfs\n  name: apiserver\n  interval: 5s\n  services: [\"metaserver\", \"objectserver\"]\n", p.IP, p.ID)
		fmt.Fprintf(&b, "etcd:\n  endpoint: [\"etcd:2379\"]\n  username: root\n  password: root\n")
		fmt.Fprintf(&b, "discovery:\n  meta-serv-name: metaserver\n  data-serv-name: objectserver\n")
		fmt.Fprintf(&b, "object:\n  checksum: %v\n  distinct-size: %s\n  distinct-timeout: 200ms\n", o.Checksum, o.DistinctSize)
		fmt.Fprintf(&b, "  reed-solomon:\n    data-shards: %d\n    parity-shards: %d\n    block-per-shard: %d\n    rewrite-async: %v\n", o.DataShards, o.ParityShards, o.BlockPerShard, o.RewriteAsync)
		fmt.Fprintf(&b, "  replication:\n    copies-count: %d\n    block-size: %s\n    loss-tolerance-rate: %s\n    copy-async: %v\n", o.Copies, o.CopyBlock, o.Tolerance, o.CopyAsync)
		b.WriteString(o.Perf)
		b.WriteString(o.Extra)
		return b.String()
	}
	return p
}

func (w *World) Admin(i int) *Proc {
	p := w.newProc("adminserver", fmt.Sprintf("admin%d", i), fmt.Sprintf("10.0.4.%d", i), "80")
	p.CfgBody = func() string {
		return fmt.Sprintf("port: \"%s\"\nlog:\n  level: ERROR\netcd:\n  endpoint: [\"etcd:2379\"]\n  username: root\n  password: root\ndiscovery:\n  group: goodfs\n", p.Port)
	}
	return p
}

// sameStrings compares as multisets.
func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
		if n[x] < 0 {
			return false
		}
	}
	return true
}
