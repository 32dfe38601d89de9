package harness

import (
	"strings"
	"time"

	sim "verifsim"
)

// keeper restarts a process whenever it has died.
type keeper struct {
	p      *Proc
	up     bool
	off    bool
	boots  int
	onDead func()
	power  bool // deaths may be power failures
	ready  func()
	gap    time.Duration
}

func (w *World) keep(p *Proc, k *keeper) *keeper {
	k.p, k.up = p, true
	if k.gap == 0 {
		k.gap = 200 * time.Millisecond
	}
	w.Background("keeper", func() {
		for !k.off {
			if p.Alive() {
				sim.Sleep(20 * time.Millisecond)
				continue
			}
			k.up = false
			if p.Node.Panic != "" {
				w.Fail("process-panic", "%s died: %s at %s", p.Name, p.Node.Panic, p.Node.PanicAt)
			}
			if k.power && w.S.Fault.Intn(2) == 0 {
				if p.Disk.PowerLoss(w.S.Fault) > 0 {
					w.S.Probe("power.lost_writes")
				}
			} else {
				p.Disk.PowerKept()
			}
			if k.onDead != nil {
				k.onDead()
			}
			sim.Sleep(w.S.Between(0, k.gap))
			p.Start()
			k.boots++
			if k.ready != nil {
				k.ready()
			}
			if p.Alive() {
				k.up = true
			}
		}
	})
	return k
}

func (w *World) awaitUp(k *keeper) {
	if !w.Until(5*time.Minute, func() bool { return k.up && k.p.Alive() }) {
		w.Fail("no-restart", "%s is not serving again 5 min after its crash", k.p.Name)
	}
}

func dbFile(p string) bool { return strings.HasSuffix(p, ".db") }

func init() {
	budgets["C01"] = budget{quick: 6000}
	run := func(w *World) {
		P := w.Plan.P
		m, c0 := w.bootMeta(MetaOpts{CacheMB: 8})
		m.Disk.Track = P["power"] > 0
		m.Disk.Faulty = dbFile
		h := w.newHist()
		k := w.keep(m, &keeper{
			power:  P["power"] > 0,
			onDead: func() { h.crashed(h.open()) },
			ready: func() {
				c := *c0
				if !w.Until(2*time.Minute, func() bool {
					if !m.Alive() {
						return true // crashed again
					}
					c.to = 2 * time.Second
					st, _ := c.GetMeta("no-such-record", false, true)
					return st == rNone
				}) {
					w.Fail("no-restart", "metadata server does not serve 2 min after a restart")
				}
			},
		})
		w.clientsRun(P["clients"], func(c, i int, o Op) {
			cl := w.metaClient(m.Addr())
			w.awaitUp(k)
			switch o.K {
			case "kill":
				if w.S.Inject("crash", func() string { return m.Name }) {
					m.Crash(false)
				}
			case "term":
				if w.S.Inject("sigterm", func() string { return m.Name }) {
					m.Term()
					if !m.AwaitExit(3 * time.Minute) {
						w.Fail("no-exit", "metadata server still runs 3 min after SIGTERM")
					}
				}
			default:
				h.run(c, cl, metaInput(o, i), o.D == 1)
			}
		})
		w.S.Plan.Off = true
		w.awaitUp(k)
		// one more crash after the last answer: what was acknowledged stays
		if P["final"] > 0 {
			m.Crash(false)
			sim.Sleep(5 * time.Millisecond)
			w.awaitUp(k)
		}
		w.settleMeta(h, m.Addr(), P["names"])
		w.settleHash(h, m.Addr())
		k.off = true
		h.judge("lost-or-partial", false)
	}
	gen := func(g *Gen) {
		cl := g.Set("clients", g.Range(1, 3))
		g.Set("names", g.Range(1, 3))
		g.Set("power", g.Pick(0, 1, 1))
		g.Set("final", g.Intn(2))
		genMetaOps(g, cl, g.P.P["names"], g.Range(8, 30), g.Pick(60, 80))
		g.P.Max = g.Range(1, 4)
	}
	register(&Scenario{Prop: "C01", Name: "crash", Weight: 3, Gen: func(g *Gen) {
		gen(g)
		g.Rate("disk.crash", g.Pick(5, 20, 60))
		for n := g.Intn(3); n > 0; n-- {
			i := g.Intn(len(g.P.Ops))
			g.P.Ops = append(g.P.Ops[:i:i], append([]Op{{K: []string{"kill", "kill", "term"}[g.Intn(3)], A: g.Intn(g.P.P["clients"])}}, g.P.Ops[i:]...)...)
		}
	}, Run: run})
	register(&Scenario{Prop: "C01", Name: "diskerr", Weight: 1, Gen: func(g *Gen) {
		gen(g)
		g.Rate(g.pickS("disk.eio.write", "disk.eio.sync", "disk.enospc"), g.Pick(10, 50, 150))
		if g.Chance(50) {
			g.Rate("disk.crash", 20)
		}
		g.P.Max = g.Range(1, 8)
	}, Run: run})
}

func (g *Gen) pickS(xs ...string) string { return xs[g.Intn(len(xs))] }

// settleHash compares the lookup by content hash with the versions themselves.
func (w *World) settleHash(h *metaHist, addr string) {
	cl := w.metaClient(addr)
	want := map[string][]string{}
	for _, id := range metaIDs {
		st, vs, _ := cl.ListVer(id, 1, 1000, true)
		for end := time.Now().Add(h.patience); st != rOK && st != rNone && time.Now().Before(end); {
			sim.Sleep(300 * time.Millisecond)
			st, vs, _ = cl.ListVer(id, 1, 1000, true)
		}
		if st == rNone {
			continue
		}
		if st != rOK {
			w.Fail("unreadable", "list of versions of %q: %s", id, cl.last)
		}
		for _, v := range vs {
			want[v.Hash] = append(want[v.Hash], v.short())
		}
	}
	for i := 0; i < 4; i++ {
		hash := []string{"hash0", "hash1", "hash2", "hash9"}[i]
		st, vs := cl.ByHash(hash, i%2 == 0)
		for end := time.Now().Add(h.patience); st != rOK && time.Now().Before(end); {
			sim.Sleep(300 * time.Millisecond)
			st, vs = cl.ByHash(hash, i%2 == 0)
		}
		if st != rOK {
			w.Fail("unreadable", "lookup of hash %q: %s", hash, cl.last)
		}
		var got []string
		for _, v := range vs {
			got = append(got, v.short())
		}
		if !sameStrings(got, want[hash]) {
			w.Fail("hash-lookup", "lookup of hash %q gives %v, the versions with it are %v", hash, got, want[hash])
		}
	}
}
