package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	sim "verifsim"
)

// Losses: servers that are down, shard files that are gone, cut off or unreadable,
// before and during reads (C11), and what reads repair (C12).

type oVersion struct {
	Hash          string   `json:"hash"`
	StoreStrategy int      `json:"storeStrategy"`
	DataShards    int      `json:"dataShards"`
	ParityShards  int      `json:"parityShards"`
	Size          int64    `json:"size"`
	Compress      bool     `json:"compress"`
	Locate        []string `json:"locate"`
}

// version asks the metaserver for the record of an acknowledged upload.
func (o *objWorld) version(p *oPut) *oVersion {
	var r *Reply
	for i := 0; i < 120; i++ {
		r = o.w.Do("GET", o.meta(p.bk+"/"+p.name).Addr(), "/metadata_version/"+esc(p.bk+"/"+esc(p.name))+q("version", strconv.Itoa(p.ver)), nil, reqOpt{})
		if r.Err == nil && r.Code/100 != 5 {
			break
		}
		// not answered
		sim.Sleep(time.Second)
	}
	var v oVersion
	if r.Code != 200 || json.Unmarshal(r.Body, &v) != nil || v.Hash == "" {
		o.w.Fail("version-lost", "version %d of %s/%s (upload %d) was acknowledged but the metadata server answers %s", p.ver, p.bk, p.name, p.id, r)
	}
	return &v
}

type objLoss struct {
	*objWorld
	damaged map[string]os.FileInfo // cut or unreadable files, while they are the same file
	bad     map[string]bool
}

func newObjLoss(w *World) *objLoss {
	return &objLoss{newObjWorld(w), map[string]os.FileInfo{}, map[string]bool{}}
}

func (o *objLoss) server(addr string) *Proc {
	for _, p := range o.objs {
		if p.Addr() == addr {
			return p
		}
	}
	return nil
}

// isDamaged says whether the file at path is still the one that was damaged.
func (o *objLoss) isDamaged(path string) bool {
	was := o.damaged[path]
	if was == nil {
		return false
	}
	fi, err := os.Stat(path)
	return err == nil && os.SameFile(fi, was)
}

func (o *objLoss) file(p *Proc, name string) string {
	for _, m := range p.Mounts {
		ds, _ := filepath.Glob(filepath.Join(m, "objects", "*_store", name))
		if len(ds) > 0 {
			return ds[0]
		}
	}
	return ""
}

// avail tells for each shard whether it can be read where the record says it is.
// Servers in without count as down.
func (o *objLoss) avail(v *oVersion, without ...*Proc) (ok []bool, n int) {
	for i, a := range v.Locate {
		p := o.server(a)
		good := p != nil && p.Alive()
		for _, x := range without {
			good = good && x != p
		}
		if good {
			f := o.file(p, fmt.Sprintf("%s.%d", v.Hash, i))
			good = f != "" && !o.isDamaged(f)
		}
		if good {
			n++
		}
		ok = append(ok, good)
	}
	return ok, n
}

func (v *oVersion) need() int {
	if v.StoreStrategy == 2 {
		return 1
	}
	return v.DataShards
}

// shards lists the shard files of one upload that can be damaged.
func (o *objLoss) shards(p *oPut) (r []string) {
	v := o.version(p)
	for i, a := range v.Locate {
		if s := o.server(a); s != nil {
			if f := o.file(s, fmt.Sprintf("%s.%d", v.Hash, i)); f != "" {
				r = append(r, f)
			}
		}
	}
	return r
}

func (o *objLoss) damage(kind string, f string) {
	w := o.w
	fi, err := os.Stat(f)
	if err != nil {
		return
	}
	switch kind {
	case "rm":
		os.Remove(f)
	case "cut":
		os.Truncate(f, fi.Size()*int64(w.S.Fault.Intn(10))/10)
		o.damaged[f], _ = os.Stat(f)
	case "bad":
		o.damaged[f], o.bad[f] = fi, true
	}
	w.Logf("%s %s (%d bytes)", kind, f, fi.Size())
	w.Nontriv++
}

func (o *objLoss) acked() (r []*oPut) {
	for _, p := range o.puts {
		if p.acked {
			r = append(r, p)
		}
	}
	return r
}

// readable reads p and judges against what is available; without are servers
// that may go down while it is read.
func (o *objLoss) readable(p *oPut, api, off int, without ...*Proc) bool {
	w := o.w
	v := o.version(p)
	ok, n := o.avail(v, without...)
	_, r := o.get(o.apis[api%len(o.apis)], p.bk, p.name, p.ver, min(off, p.c.size), 15*time.Minute)
	done := r.Err == nil && r.Code == 200
	if n >= v.need() && !done {
		w.Fail("read-failed", "version %d of %s/%s (%d bytes, strategy %d, %d+%d shards at %v) has %d shards that can be read %v, but reading it from %d gives %s",
			p.ver, p.bk, p.name, p.c.size, v.StoreStrategy, v.DataShards, v.ParityShards, v.Locate, n, ok, off, r)
	}
	w.Nontriv++
	return done
}

func genLossUploads(g *Gen) int {
	n := g.Range(2, 6)
	for i := 0; i < n; i++ {
		flags := 0
		if g.Chance(25) {
			flags |= 2
		}
		if g.Chance(15) {
			flags |= 4
		}
		if g.Chance(40) {
			flags |= 8 * g.Pick(1, 2)
		}
		g.P.Ops = append(g.P.Ops, Op{K: "put", A: g.Intn(3), B: g.Intn(len(objSizes)), C: flags, S: fmt.Sprint(g.Intn(g.P.P["buckets"]))})
	}
	return n
}

func (o *objLoss) start() {
	o.boot()
	o.mkBuckets()
	for _, p := range o.objs {
		p := p
		p.Disk.Bad = func(f string) bool { return o.bad[f] && o.isDamaged(f) }
	}
}

func (o *objLoss) mustPut(op Op, i int) {
	if p, r := o.opPut(op, i); !p.acked {
		o.w.Fail("upload-refused", "nothing is wrong with the cluster, but upload %d of %s/%s (%d bytes, ss %d, compress %v) is answered %s", p.id, p.bk, p.name, p.c.size, p.ss, p.compress, r)
	}
}

func init() {
	budgets["C11"] = budget{quick: 2000}
	budgets["C12"] = budget{quick: 1500}
	register(&Scenario{Prop: "C11", Name: "losses", Weight: 3, Gen: func(g *Gen) {
		genCluster(g)
		g.Set("objs", g.Pick(2, 3, 4, 5, 6))
		genBuckets(g)
		n := genLossUploads(g)
		down := map[int]bool{}
		for i, m := 0, g.Range(4, 16); i < m; i++ {
			switch k := g.Intn(100); {
			case k < 15:
				s := g.Intn(g.P.P["objs"])
				down[s] = true
				g.P.Ops = append(g.P.Ops, Op{K: "down", A: s})
			case k < 25:
				g.P.Ops = append(g.P.Ops, Op{K: "up", A: g.Intn(g.P.P["objs"])})
			case k < 45:
				g.P.Ops = append(g.P.Ops, Op{K: []string{"rm", "cut", "bad"}[g.Intn(3)], A: g.Intn(n), B: g.Intn(8)})
			case k < 50:
				g.P.Ops = append(g.P.Ops, Op{K: "wait", A: g.Range(1, 40)})
			case k < 60:
				g.P.Ops = append(g.P.Ops, Op{K: "isolate", A: g.Intn(g.P.P["objs"])})
			case k < 65:
				g.P.Ops = append(g.P.Ops, Op{K: "heal"})
			case k < 80:
				g.P.Ops = append(g.P.Ops, Op{K: "readdown", A: g.Intn(n), B: g.Intn(g.P.P["objs"]), C: g.Pick(0, 0, 1, 4096, 70000), D: g.Intn(300)})
			default:
				g.P.Ops = append(g.P.Ops, Op{K: "read", A: g.Intn(n), C: g.Pick(0, 0, 0, 1, 4096, 5000, 70000), D: g.Intn(2)})
			}
		}
	}, Run: runLosses})
	register(&Scenario{Prop: "C12", Name: "repair", Weight: 3, Gen: func(g *Gen) {
		genCluster(g)
		g.Set("objs", g.Pick(2, 3, 4, 5, 6))
		g.Set("tol", 0)
		genBuckets(g)
		genLossUploads(g)
		g.Set("rounds", g.Range(1, 5))
		for i, m := 0, g.Range(4, 16); i < m; i++ {
			g.P.Ops = append(g.P.Ops, Op{K: "loss", A: g.Intn(100), B: g.Intn(8), C: g.Intn(g.P.P["rounds"]), D: g.Intn(100)})
		}
	}, Run: runRepair})
}

func runLosses(w *World) {
	o := newObjLoss(w)
	o.start()
	var down, cut []*Proc
	gone := func(p *Proc) bool {
		for _, x := range cut {
			if x == p {
				return true
			}
		}
		return false
	}
	for i, op := range w.Plan.Ops {
		ps := o.acked()
		pick := func() *oPut { return ps[op.A%len(ps)] }
		if op.K != "put" && len(ps) == 0 {
			continue
		}
		switch op.K {
		case "put":
			o.mustPut(op, i)
		case "down":
			if p := o.objs[op.A]; p.Alive() {
				p.Crash(op.A%2 == 0)
				w.S.Probe("kill")
				down = append(down, p)
			}
		case "up":
			if p := o.objs[op.A]; !p.Alive() {
				p.Start()
				sim.Sleep(3 * time.Second)
			}
		case "rm", "cut", "bad":
			if fs := o.shards(pick()); len(fs) > 0 {
				o.damage(op.K, fs[op.B%len(fs)])
			}
		case "wait":
			sim.Sleep(time.Duration(op.A) * time.Second)
		case "isolate":
			p := o.objs[op.A]
			if !gone(p) {
				for _, a := range o.apis {
					w.Net.Cut(a.IP, p.IP)
				}
				w.S.Probe("partition")
				cut = append(cut, p)
			}
		case "heal":
			w.Net.HealAll()
			cut = nil
		case "read":
			o.readable(pick(), op.D, op.C, cut...)
		case "readdown":
			p := o.objs[op.B]
			x := append(append([]*Proc{}, cut...), p)
			w.All(func() { o.readable(pick(), op.D, op.C, x...) }, func() {
				sim.Sleep(time.Duration(op.D) * 100 * time.Microsecond)
				if p.Alive() {
					p.Crash(false)
					w.S.Probe("kill")
				}
			})
		}
	}
	w.Net.HealAll()
	for _, p := range o.objs {
		if !p.Alive() {
			p.Start()
		}
	}
	sim.Sleep(30 * time.Second)
	for _, p := range o.acked() {
		o.readable(p, p.id, 0)
	}
}

func runRepair(w *World) {
	o := newObjLoss(w)
	o.start()
	for i, op := range w.Plan.Ops {
		if op.K == "put" {
			o.mustPut(op, i)
		}
	}
	for round := 0; round < w.Plan.P["rounds"]; round++ {
		var down []*Proc
		for _, op := range w.Plan.Ops {
			if op.K != "loss" || op.C != round {
				continue
			}
			// a loss that leaves every object readable
			if op.D < 30 {
				s := o.objs[op.A%len(o.objs)]
				ok := s.Alive()
				for _, p := range o.acked() {
					v := o.version(p)
					if _, n := o.avail(v, s); n < v.need() {
						ok = false
					}
				}
				if ok && len(down)+2 < len(o.objs) {
					s.Crash(op.A%2 == 0)
					w.S.Probe("kill")
					down = append(down, s)
				}
				continue
			}
			ps := o.acked()
			p := ps[op.A%len(ps)]
			v := o.version(p)
			i := op.B % len(v.Locate)
			s := o.server(v.Locate[i])
			f := ""
			if s != nil && s.Alive() {
				f = o.file(s, fmt.Sprintf("%s.%d", v.Hash, i))
			}
			if f == "" {
				continue
			}
			// the same file may serve other uploads of the same content
			was, _ := os.ReadFile(f)
			os.Remove(f)
			for _, x := range ps {
				xv := o.version(x)
				if _, n := o.avail(xv); n < xv.need() {
					os.WriteFile(f, was, 0644)
					f = ""
					break
				}
			}
			if f != "" {
				w.Logf("round %d: %s is gone", round, f)
				w.S.Probe("disk.file-lost")
			}
		}
		// leases of the dead end
		sim.Sleep(40 * time.Second)
		for _, p := range o.acked() {
			v := o.version(p)
			if !o.readable(p, p.id+round, 0) {
				w.Fail("read-failed", "version %d of %s/%s is not readable", p.ver, p.bk, p.name)
			}
			ok, n := o.avail(v)
			if n == len(ok) {
				continue
			}
			w.Nontriv++
			// of copies, those before the first good one are looked at
			first := len(ok)
			for i := range ok {
				if ok[i] {
					first = i
					break
				}
			}
			var now []bool
			var nv *oVersion
			if !w.Until(time.Minute, func() bool {
				nv = o.version(p)
				now, _ = o.avail(nv)
				for i := range now {
					if !now[i] && (v.StoreStrategy != 2 || i < first) {
						return false
					}
				}
				return len(now) == len(ok)
			}) {
				w.Fail("not-repaired", "round %d: version %d of %s/%s (strategy %d, %d+%d) had the shards %v at %v; a minute after reading it completely it has %v at %v",
					round, p.ver, p.bk, p.name, v.StoreStrategy, v.DataShards, v.ParityShards, ok, v.Locate, now, nv.Locate)
			}
			if nv.Hash != v.Hash || nv.Size != v.Size || nv.DataShards != v.DataShards || nv.ParityShards != v.ParityShards || nv.Compress != v.Compress || nv.StoreStrategy != v.StoreStrategy {
				w.Fail("repair-changed", "repairing version %d of %s/%s changed its record from %+v to %+v", p.ver, p.bk, p.name, v, nv)
			}
			w.S.Probe("repaired")
		}
		for _, s := range down {
			s.Start()
		}
		sim.Sleep(10 * time.Second)
	}
	for _, p := range o.acked() {
		o.readable(p, p.id, 0)
	}
}
