package harness

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"strings"
	"time"

	sim "verifsim"
)

// C13: uploads, good ones, bad ones and ones that break off, while servers die
// and networks and disks fail.

func genFaultOps(g *Gen, n int) {
	for i := 0; i < n; i++ {
		c := g.Intn(g.P.P["clients"])
		b := fmt.Sprint(g.Intn(g.P.P["buckets"]))
		x := g.Intn(100)
		switch {
		case i > 0 && x < 25:
			g.P.Ops = append(g.P.Ops, Op{K: "get", A: g.Intn(3), C: g.Pick(0, 0, 0, 1, 4096, 70000), D: c, S: b})
		case i > 1 && x < 40:
			g.P.Ops = append(g.P.Ops, Op{K: g.pickS("kill", "kill", "killapi", "killmeta", "term", "isolate", "heal", "full"), A: g.Intn(8), B: g.Intn(200), D: c})
		default:
			flags := 0
			if g.Chance(8) {
				flags |= 1
			}
			if g.Chance(25) {
				flags |= 2
			}
			if g.Chance(15) {
				flags |= 4
			}
			if g.Chance(30) {
				flags |= 8 * g.Pick(1, 2)
			}
			if g.Chance(12) {
				flags |= 32 // the client stops in the middle
			}
			if g.Chance(10) {
				flags |= 64 // the client does not wait long
			}
			g.P.Ops = append(g.P.Ops, Op{K: "put", A: g.Intn(3), B: g.Intn(len(objSizes)), C: flags, D: c, S: b})
		}
	}
}

func init() {
	budgets["C13"] = budget{quick: 700}
	gen := func(g *Gen) {
		genCluster(g)
		g.Set("objs", g.Pick(2, 3, 3, 4))
		g.Set("sum", g.Pick(0, 1, 1, 1))
		g.Set("ttl", g.Pick(3, 5))
		g.Set("power", g.Pick(0, 1))
		genBuckets(g)
		g.Set("clients", g.Pick(1, 2, 3))
		genFaultOps(g, g.Range(6, 20))
	}
	register(&Scenario{Prop: "C13", Name: "crashes", Weight: 2, Gen: func(g *Gen) {
		gen(g)
	}, Run: runFaults})
	// a group of metadata servers, whose leader changes
	register(&Scenario{Prop: "C13", Name: "group", Weight: 2, Gen: func(g *Gen) {
		gen(g)
		g.Set("raft", 3)
		for i, m := 0, g.Range(1, 4); i < m; i++ {
			g.insert(Op{K: g.pickS("killmeta", "killmeta", "cutmeta", "heal"), A: g.Intn(3), B: g.Intn(400), D: g.Intn(g.P.P["clients"])})
		}
		if g.Chance(40) {
			g.Rate(g.pickS("net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.slow"), g.Pick(5, 20, 60))
			g.P.Max = g.Range(1, 12)
		}
	}, Run: runFaults})
	register(&Scenario{Prop: "C13", Name: "network", Weight: 2, Gen: func(g *Gen) {
		gen(g)
		g.Rate(g.pickS("net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.slow"), g.Pick(5, 20, 60))
		g.Rate(g.pickS("net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.slow"), g.Pick(5, 20, 60))
		g.P.Max = g.Range(1, 12)
	}, Run: runFaults})
	register(&Scenario{Prop: "C13", Name: "restarts", Weight: 2, Gen: func(g *Gen) {
		gen(g)
		// object servers die right after they have answered a request, others are slow at the same time
		g.Set("gap", g.Pick(20, 200, 1500))
		g.Rate("net.crash", g.Pick(10, 30, 100)*(1+2*g.Set("after", g.Pick(0, 1))))
		g.Rate("net.slow", g.Pick(30, 100, 300))
		g.P.Max = g.Range(8, 50)
	}, Run: runFaults})
	register(&Scenario{Prop: "C13", Name: "disks", Weight: 2, Gen: func(g *Gen) {
		gen(g)
		g.Rate(g.pickS("disk.eio.write", "disk.eio.sync", "disk.enospc", "disk.eio.open", "disk.crash", "disk.eio.read", "disk.eio.stat", "disk.eio.meta"), g.Pick(10, 40, 150))
		g.P.Max = g.Range(1, 8)
	}, Run: runFaults})
}

func (o *objWorld) settle() {
	w := o.w
	w.S.Plan.Off = true
	w.Net.HealAll()
	for _, p := range o.objs {
		p.Disk.Full = false
	}
	for _, p := range w.Procs {
		p := p
		if !w.Until(5*time.Minute, p.Alive) {
			w.Fail("no-restart", "%s is not running 5 minutes after the faults ended", p.Name)
		}
	}
	if !w.Until(5*time.Minute, o.ready) {
		w.Fail("not-serving", "the cluster does not serve 5 minutes after the faults ended")
	}
	sim.Sleep(40 * time.Second)
}

func runFaults(w *World) {
	o := newObjWorld(w)
	P := w.Plan.P
	off := w.S.Plan.Off
	w.S.Plan.Off = true
	o.boot()
	o.mkBuckets()
	w.S.Plan.Off = off
	w.Net.Killable = func(n *sim.Node, what string) bool {
		for _, p := range o.objs {
			if p.Node == n {
				return P["after"] == 0 || strings.HasPrefix(what, "PATCH ")
			}
		}
		return false
	}
	for _, p := range w.Procs {
		k := &keeper{gap: 5 * time.Second}
		if p.Kind == "objectserver" {
			if P["gap"] > 0 {
				k.gap = time.Duration(P["gap"]) * time.Millisecond
			}
			p.Disk.Track = P["power"] > 0
			p.Disk.Faulty = func(f string) bool { return strings.Contains(f, "_store") }
			k.power = P["power"] > 0
		}
		w.keep(p, k)
	}
	kill := func(p *Proc) {
		if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
			p.Crash(false)
		}
	}
	o.runClients(func(op Op, i int) {
		switch op.K {
		case "put":
			o.faultPut(op, i)
		case "get":
			o.opGet(op)
		case "kill", "killapi", "killmeta", "term", "isolate", "full", "cutmeta":
			obj := o.objs[op.A%len(o.objs)]
			w.Background("nemesis", func() {
				sim.Sleep(time.Duration(op.B) * 200 * time.Microsecond)
				switch op.K {
				case "kill":
					kill(obj)
				case "killapi":
					kill(o.apis[op.A%len(o.apis)])
				case "killmeta":
					kill(o.metas[op.A%len(o.metas)])
				case "cutmeta":
					m := o.metas[op.A%len(o.metas)]
					if w.S.Inject("net.partition", func() string { return m.Name }) {
						for _, x := range o.metas {
							if x != m {
								w.Net.Cut(m.IP, x.IP)
							}
						}
					}
				case "term":
					if obj.Alive() && w.S.Inject("sigterm", func() string { return obj.Name }) {
						obj.Term()
					}
				case "isolate":
					if w.S.Inject("partition", func() string { return obj.Name }) {
						for _, a := range o.apis {
							w.Net.Cut(a.IP, obj.IP)
						}
					}
				case "full":
					if w.S.Inject("disk.full", func() string { return obj.Name }) {
						obj.Disk.Full = true
						sim.Sleep(time.Duration(op.B) * 20 * time.Millisecond)
						obj.Disk.Full = false
					}
				}
			})
		case "heal":
			w.Net.HealAll()
		}
	})
	o.settle()
	o.storedWhole()
	o.judge()
	o.verifyAll("lost-object")
	o.visibleAreReadable()
	o.takesUploads()
	if P["raft"] > 0 {
		w.Nontriv += len(o.reads)
		return // heartbeats make long waits expensive
	}
	// what nobody finished is gone
	sim.Sleep(time.Duration(P["ttl"])*2*time.Minute + 2*time.Minute)
	for _, f := range o.shardFiles() {
		if f.temp && !f.srv.Disk.MetaFailed[f.path] {
			w.Fail("temp-left", "%d minutes after the last request the temp file %s (%d bytes) is still on %s", P["ttl"]*2+3, f.name, f.size, f.srv.Name)
		}
	}
	w.Nontriv += len(o.reads)
}

func (o *objWorld) faultPut(op Op, i int) {
	if op.C&(32|64) == 0 {
		o.opPut(op, i)
		return
	}
	c := o.content(i+1, objSizes[op.B%len(objSizes)])
	po := putOpt{ss: op.C >> 3 & 3, compress: op.C&2 != 0}
	if op.C&32 != 0 {
		po.cut = 1 + (i*389)%990
	} else {
		po.timeout = time.Duration(1+(i*37)%60) * time.Millisecond
	}
	o.put(o.apis[op.D%len(o.apis)], "b"+op.S, objNames[op.A], c, po)
}

type listedVersion struct{ Sequence, Size int }

// listed returns the versions the cluster shows of an object.
func (o *objWorld) listed(bk, name string) (vs []listedVersion) {
	r := o.w.Do("GET", o.apis[0].Addr(), "/v1/metadata/"+url.PathEscape(name)+"/versions"+q("page", "1", "page_size", "1000"), nil, reqOpt{hdr: map[string]string{"bucket": bk}})
	if r.Code == 404 {
		return nil
	}
	if r.Code != 200 || json.Unmarshal(r.Body, &vs) != nil {
		o.w.Fail("versions", "listing the versions of %s/%s gives %s", bk, name, r)
	}
	return vs
}

// storedWhole: every version the cluster shows has all its shards or copies where it says.
func (o *objWorld) storedWhole() {
	l := &objLoss{objWorld: o}
	seen := map[string]bool{}
	for _, p := range o.puts {
		k := p.bk + "/" + p.name
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, lv := range o.listed(p.bk, p.name) {
			v := o.version(&oPut{bk: p.bk, name: p.name, ver: lv.Sequence, id: p.id})
			least := v.Size
			if v.StoreStrategy != 2 && v.DataShards > 0 {
				least = (v.Size + int64(v.DataShards) - 1) / int64(v.DataShards)
			}
			if v.Compress {
				least = 1
			}
			for i, a := range v.Locate {
				s := l.server(a)
				if s == nil {
					o.w.Fail("unknown-server", "version %d of %s is recorded on %q, which is no object server", lv.Sequence, k, a)
				}
				n := int64(-1)
				if f := l.file(s, fmt.Sprintf("%s.%d", v.Hash, i)); f != "" {
					if fi, err := os.Stat(f); err == nil {
						n = fi.Size()
					}
				}
				if n < least {
					fail := func(f string, a ...any) { o.w.Fail("shard-missing", f, a...) }
					if o.raced[v.Hash] {
						fail = func(f string, a ...any) { o.late = fmt.Sprintf(f, a...) }
					}
					fail("version %d of %s (%d bytes, %d+%d shards, compress %v) is visible, but %s has %d bytes of its shard or copy %d: %s",
						lv.Sequence, k, v.Size, v.DataShards, v.ParityShards, v.Compress, s.Name, n, i, o.history(p.bk, p.name))
				}
			}
		}
	}
}

// visibleAreReadable: every version the cluster shows can be read.
func (o *objWorld) visibleAreReadable() {
	w := o.w
	seen := map[string]bool{}
	for _, p := range o.puts {
		k := p.bk + "/" + p.name
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, v := range o.listed(p.bk, p.name) {
			rd, g := o.get(o.apis[v.Sequence%len(o.apis)], p.bk, p.name, v.Sequence, 0, 0)
			if g.Err != nil || g.Code != 200 {
				w.Fail("visible-not-readable", "version %d of %s (%d bytes) is listed, but reading it gives %s: %s", v.Sequence, k, v.Size, g, o.history(p.bk, p.name))
			}
			if len(g.Body) != v.Size {
				w.Fail("wrong-size", "version %d of %s is listed with %d bytes, but has %d", v.Sequence, k, v.Size, len(g.Body))
			}
			_ = rd
		}
	}
}

// takesUploads: with every server back, uploads succeed.
func (o *objWorld) takesUploads() {
	for i, a := range o.apis {
		c := o.content(1000+i, objSizes[(len(o.puts)*7+i)%len(objSizes)])
		var p *oPut
		var r *Reply
		if !o.w.Until(time.Minute, func() bool {
			p, r = o.put(a, "b0", "after", c, putOpt{})
			return p.acked
		}) {
			o.w.Fail("no-progress", "minutes after the last failure an upload of %d bytes through %s is answered %s", c.size, a.Name, r)
		}
		if _, g := o.get(a, "b0", "after", p.ver, 0, 0); o.w.Plan.P["raft"] == 0 && (g.Err != nil || g.Code != 200) {
			o.w.Fail("lost-object", "the upload acknowledged after all failures reads as %s", g)
		}
	}
}
