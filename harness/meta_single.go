package harness

import (
	"fmt"
	"strings"
	"time"

	sim "verifsim"
)

var metaIDs = []string{"a", "a.1", "bk/f.txt", "a.10", "bk/f.txt.2", "z"}

// genMetaOps draws a workload on a few records.
// Op: K kind, A client, B record, C argument, D protocol (1: gRPC).
func genMetaOps(g *Gen, clients, names, n int, writes int) {
	ver := 0
	bks := g.Pick(0, 0, 25, 60) // share of bucket operations
	for i := 0; i < n; i++ {
		c, id := g.Intn(clients), g.Intn(names)
		rpc := g.Intn(2)
		r := g.Intn(100)
		if i >= names && g.Chance(bks) {
			k := "getBk"
			if r < writes {
				k = []string{"addBk", "addBk", "updBk", "updBk", "delBk"}[g.Intn(5)]
			}
			g.Op(k, c, g.Intn(2), 0, rpc)
			continue
		}
		switch {
		case i < names:
			g.Op("addMeta", c, i, 0, rpc)
		case r < writes:
			switch x := g.Intn(100); {
			case x < 12:
				g.Op("addMeta", c, id, 0, rpc)
			case x < 32:
				g.Op("updMeta", c, id, 0, rpc)
			case x < 38:
				g.Op("delMeta", c, id, 0, rpc)
			case x < 68:
				ver++
				g.Op("addVer", c, id, g.Intn(3), rpc)
			case x < 88:
				g.Op("updVer", c, id, 1+g.Intn(ver+1), rpc)
			default:
				g.Op("delVer", c, id, 1+g.Intn(ver+1), rpc)
			}
		default:
			switch x := g.Intn(100); {
			case x < 35:
				g.Op("getMeta", c, id, 0, rpc)
			case x < 75:
				g.Op("getVer", c, id, g.Intn(ver+2), rpc)
			case x < 90:
				g.Op("list", c, id, 1+g.Intn(2), rpc)
			default:
				g.Op("extra", c, id, 0, rpc)
			}
		}
	}
}

// metaInput turns a planned operation into an input; every write has a unique value.
func metaInput(o Op, i int) metaIn {
	in := metaIn{k: o.K, id: metaIDs[o.B%len(metaIDs)]}
	if strings.HasSuffix(o.K, "Bk") {
		in.id, in.num = bkPrefix+[]string{"bk1", "bk2"}[o.B%2], i+1
	}
	switch o.K {
	case "addMeta", "updMeta":
		in.val = fmt.Sprintf("n%d", i)
		in.bucket = fmt.Sprintf("bk%d", i%3)
	case "addVer":
		in.hash, in.num, in.locate = fmt.Sprintf("hash%d", o.C), 1000+i, fmt.Sprintf("s%d,t%d", i, i)
	case "updVer":
		in.seq, in.hash, in.num, in.locate = o.C, fmt.Sprintf("hash%d", o.C%3), 1000+i, fmt.Sprintf("s%d,t%d", i, i)
	case "delVer", "getVer":
		in.seq = o.C
	case "list":
		in.page, in.size = o.C, 3
	}
	return in
}

// bootMeta starts a single metadata server and waits until it answers.
func (w *World) bootMeta(o MetaOpts) (*Proc, *metaClient) {
	m := w.Meta(1, o)
	m.Start()
	c := w.metaClient(m.Addr())
	w.ready(m, c)
	return m, c
}

func (w *World) ready(m *Proc, c *metaClient) {
	off := w.S.Plan.Off
	w.S.Plan.Off = true
	if !w.Until(60*time.Second, func() bool {
		if !m.Alive() {
			return false
		}
		c2 := *c
		c2.to = 2 * time.Second
		st, _ := c2.GetMeta("no-such-record", false, true)
		return st == rNone
	}) {
		w.Fail("not-serving", "metadata server does not serve 60 s after its start (alive=%v panic=%v)", m.Alive(), m.Node.Panic)
	}
	w.S.Plan.Off = off
}

func crashGuard(p *Proc) {
	p.OnExit = func(p *Proc) {
		if p.Node.Panic != "" {
			p.W.Background("guard", func() { p.W.Fail("process-panic", "%s died: %s at %s", p.Name, p.Node.Panic, p.Node.PanicAt) })
		}
	}
}

func (w *World) clientsRun(n int, f func(client int, i int, o Op)) {
	var fs []func()
	for c := 0; c < n; c++ {
		c := c
		fs = append(fs, func() {
			for i, o := range w.Plan.Ops {
				if o.A != c {
					continue
				}
				f(c, i, o)
			}
		})
	}
	w.All(fs...)
}

// settleMeta reads everything twice after a while: late cache fills show.
func (w *World) settleMeta(h *metaHist, addr string, names int) {
	for round := 0; round < 2; round++ {
		sim.Sleep(50 * time.Millisecond)
		cl := w.metaClient(addr)
		read := func(in metaIn) {
			out := h.run(9, cl, in, round == 0)
			for end := time.Now().Add(h.patience); out.st == rUnk && time.Now().Before(end); {
				h.forget(out.op) // an election may be going on
				sim.Sleep(300 * time.Millisecond)
				out = h.run(9, cl, in, round == 0)
			}
			if out.st == rUnk {
				w.Fail("unreadable", "%v fails on a healthy server: %s", in, cl.last)
			}
		}
		for b := 0; b < names; b++ {
			id := metaIDs[b]
			read(metaIn{k: "getMeta", id: id})
			read(metaIn{k: "extra", id: id})
			read(metaIn{k: "list", id: id, page: 1, size: 50})
			for s := 0; s <= 6; s++ {
				read(metaIn{k: "getVer", id: id, seq: s})
			}
		}
		for b := 0; b < 2; b++ {
			read(metaIn{k: "getBk", id: bkPrefix + []string{"bk1", "bk2"}[b]})
		}
	}
}

func init() {
	// One metadata server, several clients: reads and writes of a record are linearizable.
	register(&Scenario{Prop: "C03", Name: "concurrent", Weight: 3, Gen: func(g *Gen) {
		cl := g.Set("clients", g.Range(2, 4))
		g.Set("names", g.Range(1, 3))
		g.Set("cacheMB", g.Pick(8, 16))
		g.Set("gap", g.Pick(0, 0, 1, 5))
		if g.Chance(20) {
			g.Set("oddids", 1)
			g.Set("names", g.Range(2, 6))
		}
		genMetaOps(g, cl, g.P.P["names"], g.Range(8, 36), g.Pick(30, 50, 70))
	}, Run: runConcurrent})
}

func runConcurrent(w *World) {
	P := w.Plan.P
	m, _ := w.bootMeta(MetaOpts{CacheMB: P["cacheMB"]})
	crashGuard(m)
	h := w.newHist()
	w.clientsRun(P["clients"], func(c, i int, o Op) {
		cl := w.metaClient(m.Addr())
		if P["gap"] > 0 {
			sim.Sleep(time.Duration(w.Rng.Intn(P["gap"]+1)) * time.Millisecond)
		}
		out := h.run(c, cl, metaInput(o, i), o.D == 1)
		if out.st == rUnk {
			w.Fail("unexpected-error", "%v fails on a healthy server: %s", metaInput(o, i), cl.last)
		}
	})
	w.settleMeta(h, m.Addr(), P["names"])
	h.judge("not-linearizable", false)
}

func init() {
	budgets["C03"] = budget{quick: 8000}
	// One client changes which version is the last one, others read the last one.
	register(&Scenario{Prop: "C03", Name: "latest", Weight: 3, Gen: func(g *Gen) {
		cl := g.Set("clients", g.Range(3, 5))
		g.Set("names", 1)
		g.Set("cacheMB", g.Pick(8, 16))
		g.Set("gap", 0)
		g.P.Cfg.PreemptPct = g.Pick(10, 40, 150)
		g.Op("addMeta", 0, 0, 0, g.Intn(2))
		g.Op("addVer", 0, 0, 0, g.Intn(2))
		last := 1
		live := []int{1}
		for n := g.Range(4, 14); n > 0; n-- {
			switch x := g.Intn(10); {
			case x < 4 || len(live) == 1:
				last++
				live = append(live, last)
				g.Op("addVer", 0, 0, last%3, g.Intn(2))
			case x < 8:
				g.Op("delVer", 0, 0, live[len(live)-1], g.Intn(2))
				live = live[:len(live)-1]
			default:
				g.Op("updVer", 0, 0, live[g.Intn(len(live))], g.Intn(2))
			}
			for c := 1; c < cl; c++ {
				for k := g.Range(2, 4); k > 0; k-- {
					g.Op("getVer", c, 0, 0, g.Intn(2))
				}
				if g.Chance(30) {
					g.Op(g.pickS("extra", "getVer"), c, 0, 0, g.Intn(2))
				}
			}
		}
	}, Run: runConcurrent})
}
