package harness

import (
	"encoding/json"
	"net/url"
	"strconv"
	"time"

	sim "verifsim"
)

// C24: the settings of a bucket govern what is uploaded to it and how much of it is kept.

func init() {
	budgets["C24"] = budget{quick: 1200}
	gen := func(g *Gen, faults bool) {
		genCluster(g)
		g.Set("objs", g.Pick(1, 2, 3, 4))
		n := g.Set("buckets", g.Pick(1, 1, 2))
		clients := g.Set("clients", g.Pick(2, 3, 3, 4))
		if g.Chance(25) {
			g.Set("odd", g.Range(1, 5))
		}
		set := func(k string, b int) Op {
			return Op{K: k, A: b, B: g.Pick(1, 1, 2, 2, 3, 5, 0), C: g.Pick(0, 0, 0, 1, 2, 4, 4), D: 0, S: strconv.Itoa(g.Pick(0, 0, 1, 2)*100 + g.Range(1, 4)*10 + g.Range(1, 2))}
		}
		for i := 0; i < n; i++ {
			g.P.Ops = append(g.P.Ops, set("mk", i))
		}
		steady := g.Chance(40)
		for i, m := 0, g.Range(8, 30); i < m; i++ {
			switch k := g.Intn(100); {
			case k < 60:
				fl := g.Pick(0, 0, 2, 4, 4, 6) | 8*g.Pick(0, 0, 1, 2)
				g.P.Ops = append(g.P.Ops, Op{K: "put", A: g.Intn(2), B: g.Intn(len(objSizes) - 6), C: fl, D: g.Range(1, clients-1), S: strconv.Itoa(g.Intn(n))})
			case k < 80:
				g.P.Ops = append(g.P.Ops, Op{K: "get", A: g.Intn(2), B: g.Pick(0, 0, 1, 2, 3, 4, 5, 6), C: 0, D: g.Range(1, clients-1), S: strconv.Itoa(g.Intn(n))})
			case steady:
			case k < 95 || faults:
				g.P.Ops = append(g.P.Ops, set("set", g.Intn(n)))
			case k < 98:
				g.P.Ops = append(g.P.Ops, Op{K: "drop", A: g.Intn(n)})
			default:
				g.P.Ops = append(g.P.Ops, set("mk", g.Intn(n)))
			}
		}
	}
	register(&Scenario{Prop: "C24", Name: "settings", Weight: 3, Gen: func(g *Gen) {
		gen(g, false)
		g.Set("quiet", 1)
		g.Rate("net.slow", g.Pick(0, 0, 30))
	}, Run: runBuckets})
	register(&Scenario{Prop: "C24", Name: "faults", Weight: 2, Gen: func(g *Gen) {
		gen(g, true)
		for i, m := 0, g.Intn(4); i < m; i++ {
			g.insert(Op{K: g.pickS("kill", "killmeta", "term"), A: g.Intn(3), D: g.P.P["clients"], B: g.Intn(600)})
		}
		if g.Chance(70) {
			g.Rate(g.pickS("net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.crash", "net.slow"), g.Pick(10, 30, 80))
		}
		g.P.Max = g.Range(1, 8)
	}, Run: runBuckets})
}

type bkSetting struct {
	cfg      *oBucket // nil: there is no such bucket
	from, to int      // the command began and was acknowledged
}

type bkWorld struct {
	*objWorld
	sets  map[string][]bkSetting
	quiet bool
	loud  map[string][]*Reply
}

func (b *oBucket) limit() int {
	if !b.Versioning || b.VersionRemains < 1 {
		return 1
	}
	return b.VersionRemains
}

// during returns the settings that may have been in force at a moment between s and e.
func (o *bkWorld) during(bk string, s, e int) (r []*oBucket) {
	h := o.sets[bk]
	if len(h) == 0 || h[0].to == 0 || h[0].to >= s {
		r = append(r, nil)
	}
	for i, x := range h {
		if x.from <= e && (i+1 == len(h) || h[i+1].to == 0 || h[i+1].to >= s) {
			r = append(r, x.cfg)
		}
	}
	return r
}

func (o *bkWorld) setting(op Op) *oBucket {
	lay, _ := strconv.Atoi(op.S)
	return &oBucket{Name: o.bkt(strconv.Itoa(op.A)), VersionRemains: op.B, Versioning: op.C&1 == 0, Readonly: op.C&2 != 0, Compress: op.C&4 != 0,
		StoreStrategy: lay / 100, DataShards: lay / 10 % 10, ParityShards: lay % 10}
}

// command changes a bucket and waits until that is acknowledged.
func (o *bkWorld) command(method string, cfg *oBucket, name string) {
	w := o.w
	path := "/v1/bucket"
	var body []byte
	if cfg != nil {
		body, _ = json.Marshal(cfg)
	}
	if method != "POST" {
		path += "/" + url.PathEscape(name)
	}
	cur := o.now(name)
	o.sets[name] = append(o.sets[name], bkSetting{cfg: cfg, from: o.tick()})
	h := &o.sets[name][len(o.sets[name])-1]
	for try := 0; ; try++ {
		r := w.Do(method, o.apis[try%len(o.apis)].Addr(), path, body, reqOpt{hdr: map[string]string{"Content-Type": "application/json"}})
		w.Logf("%s bucket %s %s: %s", method, name, body, r)
		if r.OK() {
			break
		}
		if r.Err == nil && (method == "POST" && cur != nil || method != "POST" && cur == nil) {
			// refused
			o.sets[name] = o.sets[name][:len(o.sets[name])-1]
			o.check(name)
			return
		}
		if o.calm() && try > 2 || try > 40 {
			w.Fail("bucket-command", "%s of bucket %s (%s) is answered %s", method, name, body, r)
		}
		if r.Err != nil {
			sim.Sleep(30 * time.Second)
		}
		if !o.calm() {
			sim.Sleep(time.Second)
		}
		sim.Sleep(10 * time.Millisecond)
	}
	if o.calm() && (method == "POST" && cur != nil || method == "PUT" && cur == nil) {
		w.Fail("bucket-command", "%s of bucket %s is acknowledged, though it exists: %v", method, name, cur != nil)
	}
	h.to = o.tick()
	o.check(name)
}

func (o *bkWorld) now(name string) *oBucket {
	if h := o.sets[name]; len(h) > 0 {
		return h[len(h)-1].cfg
	}
	return nil
}

// check compares the bucket with the last command, only the admin calls it.
func (o *bkWorld) check(name string) {
	w := o.w
	cfg := o.now(name)
	for i, a := range o.apis {
		r := w.Do("GET", a.Addr(), "/v1/bucket/"+url.PathEscape(name), nil, reqOpt{})
		var g oBucket
		switch {
		case r.Err != nil || r.Code/100 == 5:
			if o.calm() {
				w.Fail("bucket-get", "nothing is wrong, but reading bucket %s gives %s", name, r)
			}
		case cfg == nil && r.Code != 404:
			w.Fail("bucket-wrong", "bucket %s does not exist, but reading it from api%d gives %s", name, i+1, r)
		case cfg != nil && (r.JSON(&g) != nil || g != *cfg):
			w.Fail("bucket-wrong", "the settings of bucket %s were acknowledged as %+v, but api%d gives %s", name, *cfg, i+1, r)
		}
	}
}

// upload does an upload and judges its acceptance.
func (o *bkWorld) upload(op Op, i int) *oPut {
	w := o.w
	p, r := o.opPut(op, i)
	if r.Err != nil {
		if o.calm() {
			w.Fail("upload-broken", "nothing is wrong, but upload %d is answered %s", p.id, r)
		}
		return p
	}
	writable, readonly, absent := false, false, false
	for _, c := range o.during(p.bk, p.seqS, p.seqE) {
		switch {
		case c == nil:
			absent = true
		case c.Readonly:
			readonly = true
		default:
			writable = true
		}
	}
	if !p.acked {
		if !(r.Code == 400 && readonly) && !(r.Code == 404 && absent) && (o.calm() || r.Code/100 != 5) {
			w.Fail("upload-refused", "upload %d to %s/%s is answered %s (the bucket was writable %v, readonly %v, absent %v during it)", p.id, p.bk, p.name, r, writable, readonly, absent)
		}
		return p
	}
	if !writable {
		w.Fail("upload-accepted", "upload %d to %s/%s is acknowledged as version %d though the bucket was readonly (%v) or absent (%v) all the time", p.id, p.bk, p.name, p.ver, readonly, absent)
	}
	o.layout(p)
	return p
}

// layout: the version is stored as the settings demand.
func (o *bkWorld) layout(p *oPut) {
	w := o.w
	r := w.Do("GET", o.meta(p.bk+"/"+p.name).Addr(), "/metadata_version/"+esc(p.bk+"/"+esc(p.name))+q("version", strconv.Itoa(p.ver)), nil, reqOpt{})
	var v oVersion
	if r.Err != nil || r.Code != 200 || json.Unmarshal(r.Body, &v) != nil {
		return // removed meanwhile, which the end judges
	}
	var want []oVersion
	for _, c := range o.during(p.bk, p.seqS, p.seqE) {
		if c == nil || c.Readonly {
			continue
		}
		x := oVersion{StoreStrategy: p.ss, DataShards: o.ds, ParityShards: o.ps, Compress: p.compress || c.Compress, Size: int64(p.c.size)}
		copies := o.copies
		if x.StoreStrategy == 0 {
			x.StoreStrategy = 2
			if p.c.size > 64<<10 {
				x.StoreStrategy = 1
			}
		}
		if c.StoreStrategy > 0 {
			x.StoreStrategy, x.DataShards, x.ParityShards, copies = c.StoreStrategy, c.DataShards, c.ParityShards, c.DataShards
		}
		if x.StoreStrategy == 2 {
			x.DataShards, x.ParityShards = copies, 0
		}
		want = append(want, x)
		if v.StoreStrategy == x.StoreStrategy && v.DataShards == x.DataShards && v.ParityShards == x.ParityShards && v.Compress == x.Compress && v.Size == x.Size && len(v.Locate) == x.DataShards+x.ParityShards {
			return
		}
	}
	w.Fail("wrong-layout", "version %d of %s/%s (upload %d, %d bytes, ss %d, compress %v) is stored as %s, which no settings of the bucket during the upload ask for: %+v", p.ver, p.bk, p.name, p.id, p.c.size, p.ss, p.compress, r, want)
}

// minLimit is the smallest number of versions to keep that may count between s and e. What
// exceeds the settings is removed after an upload is acknowledged, by the settings it found,
// so an earlier upload of the name may still be at it.
func (o *bkWorld) minLimit(bk, name string, s, e int) int {
	m := 1 << 30
	for _, x := range o.puts {
		if x.bk == bk && x.name == name && !(x.refused && o.calm()) {
			s = min(s, x.seqS)
		}
	}
	for _, c := range o.during(bk, s, e) {
		if c != nil {
			m = min(m, c.limit())
		}
	}
	return m
}

func (o *bkWorld) read(op Op) {
	w := o.w
	rd, r := o.opGet(op)
	if r.Err != nil || r.Code/100 == 5 {
		if o.calm() {
			w.Fail("read-broken", "nothing is wrong, but reading %s/%s version %d gives %s", rd.bk, rd.name, rd.ver, r)
		}
		return
	}
	if r.Code/100 == 2 {
		return
	}
	for _, p := range o.puts {
		if p.acked && p.bk == rd.bk && p.name == rd.name && p.seqE < rd.seqS && (rd.ver == 0 || rd.ver == p.ver) {
			newer := 0
			for _, x := range o.puts {
				if x.bk == p.bk && x.name == p.name && x.seqS < rd.seqE && (!x.acked || x.ver > p.ver) && !(x.refused && o.calm()) {
					newer++
				}
			}
			if lim := o.minLimit(p.bk, p.name, p.seqS, rd.seqE); rd.ver == 0 || newer < lim {
				w.Fail("version-gone", "version %d of %s/%s was acknowledged and at most %d newer versions exist of %d to keep, but reading version %d gives %s: %s", p.ver, p.bk, p.name, newer, lim, rd.ver, r, o.history(p.bk, p.name))
			}
		}
	}
}

// list gives the numbers of the existing versions as the API server pages them.
func (o *bkWorld) list(bk, name string) []int {
	w := o.w
	var got []int
	for page := 1; ; page++ {
		r := w.Do("GET", o.apis[page%len(o.apis)].Addr(), "/v1/metadata/"+url.PathEscape(name)+"/versions"+q("page", strconv.Itoa(page), "page_size", "3"), nil, reqOpt{hdr: map[string]string{"bucket": bk}})
		var vs []struct {
			Sequence int `json:"sequence"`
		}
		if !r.OK() || r.JSON(&vs) != nil {
			w.Fail("list-failed", "listing versions of %s/%s (page %d) gives %s", bk, name, page, r)
		}
		for _, v := range vs {
			got = append(got, v.Sequence)
		}
		if len(vs) < 3 {
			return got
		}
	}
}

func runBuckets(w *World) {
	o := &bkWorld{objWorld: newObjWorld(w), sets: map[string][]bkSetting{}, quiet: w.Plan.P["quiet"] == 1}
	P := w.Plan.P
	off := w.S.Plan.Off
	w.S.Plan.Off = true
	o.boot()
	for _, op := range w.Plan.Ops {
		if op.K == "put" || op.K == "get" || op.K == "set" || op.K == "drop" {
			break
		}
		if op.K == "mk" {
			cfg := o.setting(op)
			o.command("POST", cfg, cfg.Name)
		}
	}
	w.S.Plan.Off = off
	if !o.quiet {
		for _, p := range w.Procs {
			w.keep(p, &keeper{gap: 3 * time.Second})
		}
		w.Net.Killable = func(n *sim.Node, what string) bool { return true }
	}
	P["clients"]++
	boot := true
	o.runClients(func(op Op, i int) {
		boot = boot && op.K != "put" && op.K != "get" && op.K != "set" && op.K != "drop"
		switch op.K {
		case "mk":
			if !boot && op.D == 0 {
				cfg := o.setting(op)
				o.command("POST", cfg, cfg.Name)
			}
		case "set":
			cfg := o.setting(op)
			o.command("PUT", cfg, cfg.Name)
		case "drop":
			o.command("DELETE", nil, o.bkt(strconv.Itoa(op.A)))
		case "put":
			o.upload(op, i)
		case "get":
			o.read(op)
		default:
			sim.Sleep(time.Duration(op.B) * 10 * time.Millisecond)
			all := map[string][]*Proc{"kill": append(append([]*Proc{}, o.apis...), o.objs...), "killmeta": o.metas, "term": w.Procs}[op.K]
			p := all[op.A%len(all)]
			if op.K == "term" {
				if p.Alive() && w.S.Inject("sigterm", func() string { return p.Name }) {
					p.Term()
				}
			} else if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
				p.Crash(false)
			}
		}
	})
	w.S.Plan.Off = true
	w.Net.HealAll()
	for _, p := range w.Procs {
		if !w.Until(5*time.Minute, p.Alive) {
			w.Fail("no-restart", "%s is not running 5 minutes after the faults ended", p.Name)
		}
	}
	sim.Sleep(30 * time.Second)
	o.judge()
	// once more each name is uploaded, which leaves what the settings say
	for b := 0; b < P["buckets"]; b++ {
		bk := o.bkt(strconv.Itoa(b))
		cfg := o.now(bk)
		if cfg == nil {
			cfg = &oBucket{Name: bk, Versioning: true, VersionRemains: 2}
			o.command("POST", cfg, bk)
		} else if cfg.Readonly {
			c := *cfg
			c.Readonly = false
			cfg = &c
			o.command("PUT", cfg, bk)
		}
		for a, name := range objNames[:2] {
			last, err := o.put(o.apis[a%len(o.apis)], bk, name, o.content(5000+10*b+a, 3000), putOpt{})
			if !last.acked {
				w.Fail("upload-refused", "nothing is wrong now, but an upload to %s/%s is answered %s", bk, name, err)
			}
			sim.Sleep(3 * time.Second)
			got := o.list(bk, name)
			if len(got) > cfg.limit() {
				w.Fail("too-many", "%s keeps %d versions, but %s has %v", bk, cfg.limit(), name, got)
			}
			for i, v := range got {
				if v != last.ver-len(got)+1+i {
					w.Fail("not-newest", "the versions of %s/%s are %v, which are not the newest ones up to %d", bk, name, got, last.ver)
				}
			}
			w.Nontriv += last.ver
			for _, p := range o.puts {
				if !p.acked || p.bk != bk || p.name != name {
					continue
				}
				if p.ver <= last.ver-len(got) {
					if lim := o.minLimit(bk, name, p.seqS, o.tick()); last.ver-p.ver < lim {
						w.Fail("version-gone", "version %d of %s/%s was removed though there were never more than %d newer ones and %d versions are to be kept: %v", p.ver, bk, name, last.ver-p.ver, lim, got)
					}
					if rd, r := o.get(o.apis[0], bk, name, p.ver, 0, 0); r.Code != 404 {
						w.Fail("removed-visible", "version %d of %s/%s was removed, but reading it gives %s", rd.ver, bk, name, r)
					}
				} else if rd, r := o.get(o.apis[0], bk, name, p.ver, 0, 0); r.Err != nil || r.Code != 200 {
					w.Fail("lost-object", "version %d of %s/%s (upload %d) cannot be read back: %s", rd.ver, bk, name, p.id, r)
				}
			}
		}
		// more are kept, then less
		if cfg.Versioning {
			name := objNames[b%2]
			have := len(o.list(bk, name))
			up := *cfg
			up.VersionRemains = cfg.limit() + 1 + b%2
			down := *cfg
			down.VersionRemains = max(1, cfg.limit()-1)
			for _, c := range []*oBucket{&up, &down} {
				o.command("PUT", c, bk)
				for i := 0; i < 2; i++ {
					last, err := o.put(o.apis[i%len(o.apis)], bk, name, o.content(6000+10*b+i+c.VersionRemains*100, 2000), putOpt{})
					if !last.acked {
						w.Fail("upload-refused", "nothing is wrong now, but an upload to %s/%s is answered %s", bk, name, err)
					}
					sim.Sleep(3 * time.Second)
					have = min(have+1, c.limit())
					if got := o.list(bk, name); len(got) != have || got[have-1] != last.ver || got[0] != last.ver-have+1 {
						w.Fail("kept-otherwise", "after %s was set to keep %d versions, %s has %v, %d versions up to %d were expected", bk, c.limit(), name, got, have, last.ver)
					}
				}
			}
		}
	}
}

// calm: nothing is wrong. A slow network alone may cost a server its lease, too.
func (o *bkWorld) calm() bool {
	return o.quiet && o.w.S.Probes["etcd.lease-expired"] == 0
}
