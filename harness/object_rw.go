package harness

import (
	"fmt"
	"time"

	sim "verifsim"
)

func init() {
	register(&Scenario{Prop: "C10", Name: "objects", Weight: 3, Gen: func(g *Gen) {
		genCluster(g)
		genBuckets(g)
		clients := g.Set("clients", g.Pick(1, 1, 2, 3))
		n := g.Range(4, 16)
		for i := 0; i < n; i++ {
			c := g.Intn(clients)
			if g.Chance(50) || i == 0 {
				flags := 0
				if g.Chance(10) {
					flags |= 1 // wrong digest
				}
				if g.Chance(25) {
					flags |= 2 // compressed
				}
				if g.Chance(20) {
					flags |= 4 // the content of an earlier upload
				}
				if g.Chance(30) {
					flags |= 8 * g.Pick(1, 2) // strategy
				}
				g.P.Ops = append(g.P.Ops, Op{K: "put", A: g.Intn(3), B: g.Intn(len(objSizes)), C: flags, D: c, S: fmt.Sprint(g.Intn(g.P.P["buckets"]))})
			} else {
				g.P.Ops = append(g.P.Ops, Op{K: "get", A: g.Intn(3), B: g.Pick(0, 0, 1, 2, 3), C: g.Pick(0, 0, 0, 1, 4096, 5000, 65536, 70000, 1<<20), D: c, S: fmt.Sprint(g.Intn(g.P.P["buckets"]))})
			}
		}
		if g.Chance(40) {
			g.Set("restart", 1)
		}
	}, Run: runObjects})
}

// genBuckets draws the settings of the buckets b0, b1, ...
func genBuckets(g *Gen) {
	n := g.Set("buckets", g.Pick(1, 1, 2))
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("b%d.", i)
		g.Set(k+"ss", g.Pick(0, 0, 1, 1, 2))
		g.Set(k+"ds", g.Pick(1, 2, 3, 4, 5))
		g.Set(k+"ps", g.Pick(1, 1, 2))
		g.Set(k+"z", g.Pick(0, 0, 0, 1))
	}
}

func (o *objWorld) mkBuckets() {
	P := o.w.Plan.P
	for i := 0; i < P["buckets"]; i++ {
		k := fmt.Sprintf("b%d.", i)
		o.mkBucket(&oBucket{Name: fmt.Sprintf("b%d", i), Versioning: true, VersionRemains: 1000, Compress: P[k+"z"] == 1,
			StoreStrategy: P[k+"ss"], DataShards: P[k+"ds"], ParityShards: P[k+"ps"]})
	}
	if P["raft"] > 0 {
		sim.Sleep(2 * time.Second) // until every server of the group has them
	}
}

// bkt is the name of a bucket; some plans use names which mean something else when they are not escaped.
func (o *objWorld) bkt(s string) string {
	odd := [][2]string{{"k%41", "kA"}, {"k#1", "k"}, {"k", "k?a=1"}, {"k 1", "k+1"}, {"ü%", "ü"}}
	if i := o.w.Plan.P["odd"]; i > 0 && (s == "0" || s == "1") {
		return odd[i%len(odd)][s[0]-'0']
	}
	return "b" + s
}

func (o *objWorld) opPut(op Op, i int) (*oPut, *Reply) {
	tag := i + 1
	size := objSizes[op.B%len(objSizes)]
	if op.C&4 != 0 {
		// the content of the nearest earlier upload of the plan
		for k := i - 1; k >= 0; k-- {
			if e := o.w.Plan.Ops[k]; e.K == "put" && e.C&(4|32) == 0 {
				tag, size = k+1, objSizes[e.B%len(objSizes)]
				break
			}
		}
	}
	c := o.content(tag, size)
	return o.put(o.apis[op.D%len(o.apis)], o.bkt(op.S), objNames[op.A], c, putOpt{ss: op.C >> 3 & 3, compress: op.C&2 != 0, bad: op.C&1 != 0})
}

func (o *objWorld) opGet(op Op) (*oRead, *Reply) {
	return o.get(o.apis[op.D%len(o.apis)], o.bkt(op.S), objNames[op.A], op.B, op.C, 0)
}

// clients runs the operations of the plan, those of one client in order.
func (o *objWorld) runClients(f func(op Op, i int)) {
	var fs []func()
	for c := 0; c < o.w.Plan.P["clients"]; c++ {
		c := c
		fs = append(fs, func() {
			for i, op := range o.w.Plan.Ops {
				if op.D == c {
					f(op, i)
					if o.w.S.Fault.Intn(3) == 0 {
						sim.Sleep(o.w.S.Between(0, 300*time.Millisecond))
					}
					if o.w.Plan.P["raft"] > 0 {
						sim.Sleep(o.w.S.Between(0, 1500*time.Millisecond))
					}
				}
			}
		})
	}
	o.w.All(fs...)
}

func runObjects(w *World) {
	o := newObjWorld(w)
	o.boot()
	o.mkBuckets()
	o.runClients(func(op Op, i int) {
		switch op.K {
		case "put":
			p, r := o.opPut(op, i)
			if !p.acked && !p.bad {
				w.Fail("upload-refused", "nothing is wrong with the cluster, but upload %d of %s/%s (%d bytes, ss %d, compress %v) is answered %s", p.id, p.bk, p.name, p.c.size, p.ss, p.compress, r)
			}
		case "get":
			rd, r := o.opGet(op)
			if r.Err != nil {
				w.Fail("read-broken", "nothing is wrong with the cluster, but reading %s/%s version %d from %d breaks: %s", rd.bk, rd.name, rd.ver, rd.off, r)
			}
			if r.Code/100 == 2 {
				return
			}
			for _, p := range o.puts {
				if p.acked && p.bk == rd.bk && p.name == rd.name && p.seqE < rd.seqS && rd.off < max(1, p.c.size) && (rd.ver == 0 || p.ver == rd.ver) {
					w.Fail("read-refused", "version %d of %s/%s was acknowledged, but reading version %d from %d gives %s", p.ver, p.bk, p.name, rd.ver, rd.off, r)
				}
			}
		}
	})
	o.judge()
	if w.Plan.P["restart"] == 1 {
		sim.Sleep(2 * time.Second)
		for _, p := range append(append([]*Proc{}, o.objs...), o.metas...) {
			p.Term()
			p.AwaitExit(time.Minute)
			p.Start()
		}
		sim.Sleep(20 * time.Second)
	}
	o.verifyAll("lost-object")
	w.Nontriv += len(o.reads)
}

func init() {
	budgets["C10"] = budget{quick: 2000}
}
