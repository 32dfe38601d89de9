package harness

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"time"

	"common/proto/pb"
	sim "verifsim"
	"verifsim/simetcd"
	"verifsim/simgrpc"
)

// raftGroup is a replicated group of metadata servers.
type raftGroup struct {
	w     *World
	procs []*Proc
	keeps []*keeper
	last  []int // per client: where the leader was last seen
	skew  int64 // largest clock difference, ms

	// deployments of several stores
	stores  []string
	subs    []*raftGroup // the replicated ones
	grouped bool
}

func (w *World) newGroup(n int, name string, first int, slots []string, bootAll bool) *raftGroup {
	g := &raftGroup{w: w, last: make([]int, 16)}
	var peers []string
	for i := 0; i < n; i++ {
		peers = append(peers, fmt.Sprintf("meta%d,10.0.1.%d:8090", first+i, first+i))
	}
	for i := 0; i < n; i++ {
		p := w.Meta(first+i, MetaOpts{Cluster: true, Bootstrap: i == 0 || bootAll, Group: name, Peers: peers, Slots: slots, CacheMB: 8})
		g.procs = append(g.procs, p)
		p.Start()
	}
	return g
}

// refused tells that a server did not take the request at all.
func refused(c *metaClient) bool {
	if strings.HasPrefix(c.last, "503") || strings.HasPrefix(c.last, "409") {
		return true
	}
	for _, s := range []string{"not the leader", "see other", "connection refused", "not writable", "in migration", "code = Aborted"} {
		if strings.Contains(c.last, s) {
			return true
		}
	}
	return false
}

// do runs a write on whoever takes it.
func (g *raftGroup) do(h *metaHist, client int, in metaIn, rpc bool, patience time.Duration) *metaOut {
	end := time.Now().Add(patience)
	for {
		p := g.procs[g.last[client]%len(g.procs)]
		if p.Alive() {
			c := g.w.metaClient(p.Addr())
			c.to = 8 * time.Second
			out := h.run(client, c, in, rpc)
			if out.st == rOK || out.st == rNone || (out.st == rNo && !refused(c)) {
				return out
			}
			if out.st == rUnk && !refused(c) {
				g.last[client]++
				return out
			}
			h.forget(out.op)
		}
		g.last[client]++
		if !time.Now().Before(end) {
			return nil
		}
		sim.Sleep(g.w.S.Between(20*time.Millisecond, 150*time.Millisecond))
	}
}

// forget drops an operation that did not take place.
func (h *metaHist) forget(op *LinOp) {
	id := op.In.(metaIn).id
	l := h.ops[id]
	for i := range l {
		if l[i] == op {
			h.ops[id] = append(l[:i:i], l[i+1:]...)
			return
		}
	}
}

func (g *raftGroup) raftCmd(p *Proc) pb.RaftCmdClient {
	cc, err := simgrpc.Dial(p.Addr())
	must(err)
	return pb.NewRaftCmdClient(cc)
}

// leader waits until the group takes a write.
func (g *raftGroup) settle(h *metaHist, limit time.Duration) {
	w := g.w
	ok := false
	for n := 0; !ok; n++ {
		in := metaIn{k: "addMeta", id: fmt.Sprintf("barrier%d", n), val: "x", bucket: "bk0"}
		begin := time.Now()
		out := g.do(h, 9, in, true, limit)
		ok = out != nil && out.st == rOK
		if !ok {
			sim.Sleep(200 * time.Millisecond)
		}
		limit -= time.Since(begin)
		if !ok && limit <= 0 {
			w.Fail("no-leader", "the group takes no write %v after the last fault: %s", time.Since(begin), g.describe())
		}
	}
}

func (g *raftGroup) describe() string {
	var s []string
	for _, p := range g.procs {
		s = append(s, fmt.Sprintf("%s(alive=%v)", p.Name, p.Alive()))
	}
	return strings.Join(s, " ")
}

// dump is everything one server knows, as its clients see it.
func (g *raftGroup) dump(p *Proc, ids []string) (string, error) {
	c := g.w.metaClient(p.Addr())
	c.to = 5 * time.Second
	var b strings.Builder
	for _, id := range ids {
		if isBucket(id) {
			st, bk := c.GetBucket(bucketName(id), true)
			if st == rUnk || st == rNo {
				return "", fmt.Errorf("%s: bucket %s: %s", p.Name, id, c.last)
			}
			fmt.Fprintf(&b, "%s %s %+v\n", id, st, bk)
			continue
		}
		st, m := c.GetMeta(id, true, true)
		if st == rUnk || st == rNo {
			return "", fmt.Errorf("%s: metadata %s: %s", p.Name, id, c.last)
		}
		fmt.Fprintf(&b, "%s %s %+v\n", id, st, m)
		if st != rOK {
			continue
		}
		st, vs, tot := c.ListVer(id, 1, 1000, true)
		if st == rUnk || st == rNo {
			return "", fmt.Errorf("%s: versions of %s: %s", p.Name, id, c.last)
		}
		fmt.Fprintf(&b, "  versions %d %v\n", tot, vs)
	}
	for _, hash := range []string{"hash0", "hash1", "hash2"} {
		st, vs := c.ByHash(hash, true)
		if st == rUnk || st == rNo {
			return "", fmt.Errorf("%s: hash %s: %s", p.Name, hash, c.last)
		}
		var l []string
		for _, v := range vs {
			l = append(l, v.short())
		}
		fmt.Fprintf(&b, "%s %v\n", hash, sortedCopy(l))
	}
	return b.String(), nil
}

func sortedCopy(l []string) []string {
	r := append([]string(nil), l...)
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// converge waits until all servers show the same content, and returns it.
func (g *raftGroup) converge(h *metaHist, limit time.Duration) {
	w := g.w
	ids := sortedKeys(h.ops)
	var dumps []string
	var why string
	if !w.Until(limit, func() bool {
		dumps = dumps[:0]
		for _, p := range g.procs {
			d, err := g.dump(p, ids)
			if err != nil {
				why = err.Error()
				return false
			}
			if len(dumps) > 0 && d != dumps[0] {
				why = fmt.Sprintf("%s and %s differ: %s", g.procs[0].Name, p.Name, diffLine(dumps[0], d))
				return false
			}
			dumps = append(dumps, d)
		}
		return true
	}) {
		w.Fail("replicas-differ", "servers do not show the same content %v after the last fault: %s", limit, why)
	}
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := ""
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("%q / %q", trunc(x[i], 300), trunc(z, 300))
		}
	}
	return "?"
}

// nemesis turns planned fault operations into faults.
func (g *raftGroup) nemesis(o Op) bool {
	w := g.w
	p := g.procs[o.B%len(g.procs)]
	switch o.K {
	case "kill":
		if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
			p.Crash(false)
		}
	case "term":
		if p.Alive() && w.S.Inject("sigterm", func() string { return p.Name }) {
			p.Term()
			if !p.AwaitExit(time.Minute) {
				w.Net.HealAll() // it may wait for others
				if !p.AwaitExit(3 * time.Minute) {
					w.Fail("no-exit", "%s still runs 3 min after SIGTERM", p.Name)
				}
			}
		}
	case "isolate":
		if w.S.Inject("net.partition", func() string { return p.Name }) {
			for _, q := range g.procs {
				if q != p {
					w.Net.Cut(p.IP, q.IP)
				}
			}
			if o.C%2 == 1 { // from etcd as well
				w.Net.Cut(p.IP, simetcd.Host)
			}
		}
	case "cut":
		q := g.procs[(o.B+1+o.C)%len(g.procs)]
		if q != p && w.S.Inject("net.cut", func() string { return p.Name + "-" + q.Name }) {
			w.Net.Cut(p.IP, q.IP)
		}
	case "heal":
		w.Net.HealAll()
	case "skew":
		d := time.Duration(o.C-5) * 700 * time.Millisecond
		if w.S.Inject("clock.skew", func() string { return p.Name + " " + d.String() }) {
			p.SetSkew(d)
		}
	case "wait":
		sim.Sleep(time.Duration(o.C) * 100 * time.Millisecond)
	default:
		return false
	}
	return true
}

func init() {
	budgets["C02"] = budget{quick: 1500}
	run := func(w *World) {
		P := w.Plan.P
		if P["snap"] > 0 {
			w.S.Data["knob.raft.SnapshotThreshold"] = P["snap"]
			w.S.Data["knob.raft.TrailingLogs"] = P["trail"]
			w.S.Data["knob.raft.SnapshotInterval"] = int(2 * time.Second)
		}
		w.S.Plan.Off = true
		g := w.newGroup(P["servers"], "g1", 1, []string{"0-16384"}, P["bootAll"] > 0)
		h := w.newHist()
		h.skew = 10000
		h.patience = 20 * time.Second
		g.settle(h, time.Minute)
		for _, p := range g.procs {
			p := p
			p.Disk.Track = P["power"] > 0
			g.keeps = append(g.keeps, w.keep(p, &keeper{power: P["power"] > 0, gap: time.Duration(P["gap"]) * time.Millisecond}))
		}
		w.S.Plan.Off = false
		w.clientsRun(P["clients"]+1, func(c, i int, o Op) {
			if g.nemesis(o) {
				return
			}
			in := metaInput(o, i)
			if readOnlyOp(in.k) {
				p := g.procs[o.D%len(g.procs)]
				if p.Alive() {
					cl := w.metaClient(p.Addr())
					cl.to = 5 * time.Second
					h.peek(cl, in, true)
				}
				return
			}
			g.do(h, c, in, o.D == 1, 5*time.Second)
		})
		w.S.Plan.Off = true
		w.Net.HealAll()
		for _, p := range g.procs {
			p.SetSkew(0)
		}
		for _, k := range g.keeps {
			w.awaitUp(k)
		}
		g.settle(h, 2*time.Minute)
		if P["final"] > 0 { // everything restarts once more
			for _, p := range g.procs {
				p.Crash(P["power"] > 0)
			}
			sim.Sleep(50 * time.Millisecond)
			for _, k := range g.keeps {
				w.awaitUp(k)
			}
			g.settle(h, 2*time.Minute)
		}
		g.converge(h, 2*time.Minute)
		for _, k := range g.keeps {
			k.off = true
		}
		w.settleMeta(h, g.procs[w.Rng.Intn(len(g.procs))].Addr(), P["names"])
		w.settleHash(h, g.procs[0].Addr())
		h.judge("acknowledged-write-lost", true)
	}
	gen := func(g *Gen) {
		cl := g.Set("clients", g.Range(1, 3))
		g.Set("servers", g.Pick(3, 3, 3, 5))
		g.Set("bootAll", g.Intn(2))
		g.Set("names", g.Range(1, 3))
		g.Set("gap", g.Pick(100, 1000, 5000))
		ops := g.Range(8, 26)
		if g.Chance(50) {
			// fewer trailing logs than a follower may have to throw away send
			// this version of raft into installing snapshots for ever
			g.Set("snap", g.Pick(4, 8, 16))
			g.Set("trail", g.Pick(16, 20))
			ops = g.Range(30, 60)
		}
		genMetaOps(g, cl, g.P.P["names"], ops, g.Pick(70, 90))
	}
	nemesis := func(g *Gen, kinds ...string) {
		for n := g.Range(2, 8); n > 0; n-- {
			g.Op("wait", g.P.P["clients"], 0, g.Range(1, 30), 0)
			g.Op(g.pickS(kinds...), g.P.P["clients"], g.Intn(5), g.Intn(11), 0)
		}
	}
	register(&Scenario{Prop: "C02", Name: "crash", Weight: 3, Gen: func(g *Gen) {
		gen(g)
		g.Set("power", g.Intn(2))
		g.Set("final", g.Intn(2))
		nemesis(g, "kill", "kill", "kill", "term", "skew")
		g.Rate("disk.crash", g.Pick(0, 1, 3))
		g.P.Max = 12
	}, Run: run})
	register(&Scenario{Prop: "C02", Name: "partition", Weight: 3, Gen: func(g *Gen) {
		gen(g)
		g.Set("power", g.Intn(2))
		g.Set("final", g.Intn(2))
		nemesis(g, "isolate", "isolate", "cut", "heal", "heal", "kill", "skew")
		g.Rate("net.slow", g.Pick(0, 5, 20))
		g.Rate("net.reqcut", g.Pick(0, 5))
		g.P.Max = 25
	}, Run: run})
}

// peek reads without expectations about freshness: what it shows must exist.
func (h *metaHist) peek(c *metaClient, in metaIn, rpc bool) {
	h.w.Logf("peek %v", in)
	out := c.perform(in, rpc)
	h.w.Logf("peek -> %v", out)
	_ = out
}

// runReplicas: one command after another at the leader, of every kind there is; each
// server then shows exactly what the reference model says.
func runReplicas(w *World) {
	P := w.Plan.P
	if P["snap"] > 0 {
		w.S.Data["knob.raft.SnapshotThreshold"] = P["snap"]
		w.S.Data["knob.raft.TrailingLogs"] = P["trail"]
		w.S.Data["knob.raft.SnapshotInterval"] = int(2 * time.Second)
	}
	g := w.newGroup(3, "g1", 1, []string{"0-16384"}, false)
	r := &refMeta{w: w, recs: map[string]*refRec{}, bks: map[string]int{}, again: true}
	leader := func() *metaClient {
		var c *metaClient
		if !w.Until(2*time.Minute, func() bool {
			for _, p := range g.procs {
				if p.Alive() {
					c = w.metaClient(p.Addr())
					// changes nothing, but only a leader does it
					if st := c.Locate("no such hash", 0, "x"); st == rOK || st == rNone {
						return true
					}
				}
			}
			return false
		}) {
			w.Fail("no-leader", "no server takes a write for two minutes: %s", g.describe())
		}
		return c
	}
	applied := func(p *Proc) int {
		resp, err := g.raftCmd(p).AppliedIndex(context.Background(), &pb.EmptyReq{})
		if err != nil {
			return -1
		}
		n, _ := strconv.Atoi(resp.GetMessage())
		return n
	}
	verify := func() {
		leader()
		last := 0
		for _, p := range g.procs {
			if p.Alive() {
				last = max(last, applied(p))
			}
		}
		for _, p := range g.procs {
			if !p.Alive() {
				continue
			}
			c := w.metaClient(p.Addr())
			var why string
			// what is handed to its state is applied in no time
			w.Until(time.Minute, func() bool { return applied(p) >= last })
			sim.Sleep(time.Second)
			// catch up first
			w.Until(time.Minute, func() bool {
				why = r.differs(c)
				return why == ""
			})
			if why != "" {
				w.Fail("replicas-differ", "a minute after the last write %s: %s", p.Name, why)
			}
			r.verify(c, P["page"])
			w.Nontriv++
		}
	}
	c := leader()
	var down *Proc
	for i, o := range w.Plan.Ops {
		switch o.K {
		case "kill", "term":
			p := g.procs[o.B%3]
			if down != nil {
				down.Start()
				w.ready(down, w.metaClient(down.Addr()))
				down = nil
			}
			if p.Alive() && w.S.Inject(map[string]string{"kill": "crash", "term": "sigterm"}[o.K], func() string { return p.Name }) {
				if o.K == "kill" {
					p.Crash(false)
				} else {
					p.Term()
					p.AwaitExit(3 * time.Minute)
				}
				down = p
			}
			c = leader()
		case "up":
			if down != nil {
				down.Start()
				w.ready(down, w.metaClient(down.Addr()))
				down = nil
			}
			c = leader()
		case "verify":
			verify()
		default:
			w.Until(2*time.Minute, func() (done bool) {
				defer func() {
					if e := recover(); e != nil {
						if e != errMoved {
							panic(e)
						}
						c = leader()
					}
				}()
				r.apply(c, o, i)
				return true
			})
		}
	}
	if down != nil {
		down.Start()
		w.ready(down, w.metaClient(down.Addr()))
	}
	leader()
	verify()
}

// differs tells whether a server has not got what is known of every record yet.
func (r *refMeta) differs(c *metaClient) string {
	for _, id := range verIDs {
		rec := r.recs[id]
		st, m := c.GetMeta(id, true, true)
		if st != rOK && st != rNone {
			return c.last
		}
		if (st == rOK) != (rec != nil) {
			return fmt.Sprintf("record %q is %s, but it exists: %v", id, st, rec != nil)
		}
		if rec == nil {
			continue
		}
		if m.Name != rec.name || m.Bucket != rec.bucket {
			return fmt.Sprintf("record %q is {%s %s}, but shows %+v", id, rec.name, rec.bucket, m)
		}
		var want, got []string
		for _, v := range rec.vers {
			want = append(want, v.short())
		}
		_, vs, _ := c.ListVer(id, 1, 10000, true)
		for _, v := range vs {
			got = append(got, v.short())
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return fmt.Sprintf("versions of %q are %v, but it shows %v", id, want, got)
		}
	}
	return ""
}

func init() {
	register(&Scenario{Prop: "C02", Name: "replicas", Weight: 1, Gen: func(g *Gen) {
		g.P.Cfg.StallPct = 0 // no change of leader with a command under way
		genRef(g, g.Range(10, 50), []string{"addVer", "addVer", "addVer", "delVer", "updVer", "locate", "locate", "verify", "addMeta", "updMeta", "addBk", "delBk", "delMeta", "delAll"})
		for n := g.Intn(4); n > 0; n-- {
			g.insert(Op{K: g.pickS("kill", "term", "up"), B: g.Intn(3)})
		}
		if g.Chance(50) {
			g.Set("snap", g.Pick(4, 8, 16))
			g.Set("trail", g.Pick(16, 20))
		}
	}, Run: runReplicas})
	register(&Scenario{Prop: "C02", Name: "locate", Weight: 1, Gen: func(g *Gen) {
		cl := g.Set("clients", g.Range(2, 3))
		g.Set("servers", 3)
		g.Set("vers", g.Pick(3, 4, 12))
		g.Set("power", g.Intn(2))
		for n := g.Range(6, 20); n > 0; n-- {
			g.Op(g.pickS("locate", "locate", "byHash"), g.Intn(cl), g.Intn(3), g.Intn(3), 0)
		}
		for n := g.Range(1, 4); n > 0; n-- {
			g.Op("wait", cl, 0, g.Range(1, 10), 0)
			g.Op(g.pickS("kill", "isolate", "heal"), cl, g.Intn(3), 0, 0)
		}
		g.P.Max = g.Range(1, 5)
	}, Run: runLocate})
}
