package harness

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"net/url"
	"strconv"
	"time"

	sim "verifsim"
)

// C14: resumable uploads, in parts that break off, are repeated, come at the wrong
// place or too long, through different apiservers that restart in between.

const (
	bigWrong   = 1   // the digest is wrong
	bigZip     = 2   // compressed
	bigOver    = 4   // the last part is longer than announced
	bigCut     = 8   // parts break off
	bigTimeout = 16  // the client loses patience with parts
	bigRestart = 32  // the apiserver restarts between parts
	bigProbe   = 64  // parts at wrong places
	bigAbandon = 128 // nobody finishes the upload
	bigShared  = 256 // the content of another upload
	bigSmall   = 512 // parts smaller than a block
)

func genBigOps(g *Gen, n int) {
	for i := 0; i < n; i++ {
		c := g.Intn(g.P.P["clients"])
		b := fmt.Sprint(g.Intn(g.P.P["buckets"]))
		x := g.Intn(100)
		switch {
		case i > 0 && x < 20:
			g.P.Ops = append(g.P.Ops, Op{K: "get", A: g.Intn(3), B: g.Pick(0, 0, 1, 2), C: g.Pick(0, 0, 1, 4096, 70000), D: c, S: b})
		case x < 30:
			g.P.Ops = append(g.P.Ops, Op{K: "put", A: g.Intn(3), B: g.Intn(len(objSizes)), C: 8 * g.Pick(0, 1, 1, 2), D: c, S: b})
		default:
			f := 0
			if g.P.P["calm"] == 0 && g.Chance(25) {
				f |= bigRestart
			}
			for _, k := range []int{bigZip, bigCut, bigTimeout, bigProbe, bigSmall} {
				if g.Chance(25) {
					f |= k
				}
			}
			for _, k := range []int{bigWrong, bigOver, bigAbandon, bigShared} {
				if g.Chance(8) {
					f |= k
				}
			}
			g.P.Ops = append(g.P.Ops, Op{K: "big", A: g.Intn(3), B: g.Intn(len(objSizes) * 3), C: f, D: c, S: b})
		}
	}
}

func init() {
	budgets["C14"] = budget{quick: 700}
	gen := func(g *Gen) {
		genCluster(g)
		g.Set("objs", g.Pick(2, 3, 4))
		g.Set("ttl", 5)
		genBuckets(g)
		g.Set("clients", g.Pick(1, 2, 3))
		g.Set("block", g.Pick(4096, 4096, 8192, 5000))
		g.Set("calm", g.Pick(0, 1, 1))
		genBigOps(g, g.Range(2, 9))
	}
	register(&Scenario{Prop: "C14", Name: "parts", Weight: 3, Gen: gen, Run: runResume})
	register(&Scenario{Prop: "C14", Name: "faults", Weight: 2, Gen: func(g *Gen) {
		gen(g)
		g.Set("faults", 1)
		g.Set("raft", g.Pick(0, 0, 0, 3))
		for _, k := range []string{"net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.slow", "disk.eio.write", "disk.enospc", "disk.eio.sync", "etcd.refuse"} {
			if g.Chance(35) {
				g.Rate(k, g.Pick(4, 15, 40))
			}
		}
		g.P.Max = g.Range(1, 10)
		for i := 0; i < g.Range(0, 3); i++ {
			g.P.Ops = append(g.P.Ops, Op{K: g.pickS("kill", "killapi", "killmeta"), A: g.Intn(8), B: g.Intn(3000), D: g.Intn(g.P.P["clients"])})
		}
	}, Run: runResume})
}

func runResume(w *World) {
	o := newObjWorld(w)
	P := w.Plan.P
	off := w.S.Plan.Off
	w.S.Plan.Off = true
	o.boot()
	o.mkBuckets()
	w.S.Plan.Off = off
	for _, p := range w.Procs {
		w.keep(p, &keeper{gap: 2 * time.Second})
	}
	for _, op := range w.Plan.Ops {
		var p *Proc
		switch op.K {
		case "kill":
			p = o.objs[op.A%len(o.objs)]
		case "killapi":
			p = o.apis[op.A%len(o.apis)]
		case "killmeta":
			p = o.metas[op.A%len(o.metas)]
		default:
			continue
		}
		after := time.Duration(op.B) * time.Millisecond
		w.Background("nemesis", func() {
			sim.Sleep(after)
			if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
				p.Crash(false)
			}
		})
	}
	o.runClients(func(op Op, i int) {
		switch op.K {
		case "big":
			o.big(op, i)
		case "put":
			o.opPut(op, i)
		case "get":
			o.opGet(op)
		}
	})
	o.settle()
	o.judge()
	o.verifyAll("lost-object")
	o.visibleAreReadable()
	if P["raft"] > 0 {
		w.Nontriv += len(o.reads)
		return // heartbeats make long waits expensive
	}
	sim.Sleep(time.Duration(P["ttl"])*2*time.Minute + 2*time.Minute)
	for _, f := range o.shardFiles() {
		if f.temp && !f.srv.Disk.MetaFailed[f.path] {
			w.Fail("temp-left", "%d minutes after the last request the temp file %s (%d bytes) is still on %s", P["ttl"]*2+3, f.name, f.size, f.srv.Name)
		}
	}
	w.Nontriv += len(o.reads)
}

type bigUp struct {
	p        *oPut
	loc      string
	part     int // Min-Part-Size
	low      int // bytes that are certainly stored
	sent     int // no more than these can be stored
	hurt     bool
	maybeOld bool // an abandoned request may still be running
}

// head asks how much is stored.
func (o *objWorld) bigHead(u *bigUp, api *Proc) (int, *Reply) {
	w := o.w
	r := w.Do("HEAD", api.Addr(), u.loc, nil, reqOpt{})
	if r.Code != 200 {
		return 0, r
	}
	n, e := strconv.Atoi(r.Header.Get("Content-Length"))
	w.Logf("big#%d: %d of %d stored", u.p.id, n, u.p.c.size)
	if e != nil || n < 0 || n > u.p.c.size {
		w.Fail("bad-size", "asked for the state of upload %d (%d bytes) the apiserver says %q", u.p.id, u.p.c.size, r.Header.Get("Content-Length"))
	}
	if n > u.sent {
		w.Fail("bad-size", "upload %d: %d bytes are said to be stored, but only %d were ever sent", u.p.id, n, u.sent)
	}
	if n%u.part != 0 && n != u.p.c.size {
		w.Fail("bad-size", "upload %d: %d bytes are said to be stored, no multiple of %d", u.p.id, n, u.part)
	}
	if n < u.low && !u.hurt {
		w.Fail("parts-lost", "upload %d: %d bytes are said to be stored, but %d were acknowledged before", u.p.id, n, u.low)
	}
	u.low = max(u.low, n)
	return n, r
}

// big runs one resumable upload from begin to end.
func (o *objWorld) big(op Op, i int) {
	w := o.w
	f := op.C
	faults := w.Plan.P["faults"] == 1
	for _, x := range w.Plan.Ops {
		faults = faults || x.K == "big" && x.C&bigRestart != 0
	}
	rng := sim.NewRand(int64(op.A*31+op.B*7+op.C) + 17)
	size := objSizes[op.B%len(objSizes)]
	tag := i + 1
	if f&bigShared != 0 {
		for k, e := range w.Plan.Ops {
			if k != i && e.K == "big" && e.C&bigShared == 0 {
				tag, size = k+1, objSizes[e.B%len(objSizes)]
				break
			}
		}
	}
	c := o.content(tag, size)
	bk, name := "b"+op.S, objNames[op.A]
	p := &oPut{id: len(o.puts), bk: bk, name: name, c: c, start: w.S.Now(), seqS: o.tick(), ss: 1, compress: f&bigZip != 0, bad: true, cut: true}
	o.puts = append(o.puts, p)
	dg := c.digest
	if f&bigWrong != 0 {
		x := sha256.Sum256([]byte("wrong big " + c.digest))
		dg = hex.EncodeToString(x[:])
	}
	api := func() *Proc { return o.apis[rng.Intn(len(o.apis))] }
	var kv []string
	if f&bigZip != 0 {
		kv = append(kv, "compress", "true")
	}
	hdr := map[string]string{"bucket": bk, "digest": dg, "size": strconv.Itoa(size)}
	var r *Reply
	for try := 0; ; try++ {
		r = w.Do("POST", api().Addr(), "/v1/big/"+url.PathEscape(name)+q(kv...), nil, reqOpt{hdr: hdr})
		w.Logf("big#%d %s/%s tag %d size %d flags %d: %s", p.id, bk, name, tag, size, f, r)
		if r.OK() {
			break
		}
		if !faults {
			w.Fail("upload-refused", "nothing is wrong with the cluster, but preparing upload %d of %s/%s (%d bytes) is answered %s", p.id, bk, name, size, r)
		}
		// it may have been taken for a copy of what is there already
		for _, x := range o.puts {
			if x != p && !x.bad && x.c.digest == c.digest && f&bigWrong == 0 {
				p.bad, p.cut = false, false
			}
		}
		if try > 20 {
			p.refused = true
			return
		}
		sim.Sleep(3 * time.Second)
	}
	if r.Code == 200 {
		ok := false
		for _, x := range o.puts {
			ok = ok || x != p && !x.bad && x.c.digest == c.digest && f&bigWrong == 0
		}
		if !ok {
			w.Fail("dedup-of-nothing", "upload %d of %s/%s is answered %s before a byte of it was sent", p.id, bk, name, r)
		}
		o.bigDone(p, r)
		return
	}
	u := &bigUp{p: p, loc: r.Header.Get("Location"), low: 0}
	u.part, _ = strconv.Atoi(r.Header.Get("Min-Part-Size"))
	if r.Code != 201 || u.loc == "" || u.part <= 0 {
		w.Fail("bad-ack", "preparing upload %d is answered %d %v", p.id, r.Code, r.Header)
	}
	body := c.body
	if f&bigOver != 0 {
		body = append(append([]byte(nil), body...), fill(99, 1+rng.Intn(u.part))...)
	}
	stop := -1
	if f&bigAbandon != 0 {
		stop = rng.Intn(4)
	}
	failed := 0
	for step := 0; step < 400; step++ {
		if step == stop {
			w.Logf("big#%d abandoned", p.id)
			return
		}
		if f&bigRestart != 0 && rng.Intn(4) == 0 {
			a := api()
			if a.Alive() && w.S.Inject("crash", func() string { return a.Name }) {
				a.Crash(false)
				w.Until(time.Minute, a.Alive)
				w.Until(time.Minute, func() bool { return w.Do("GET", a.Addr(), "/ping", nil, reqOpt{timeout: time.Second}).Code == 200 })
				sim.Sleep(4 * time.Second)
			}
		}
		a := api()
		cur, hr := o.bigHead(u, a)
		if hr.Code != 200 {
			if p.acked {
				return
			}
			if !faults && !u.maybeOld {
				w.Fail("upload-lost", "nothing is wrong with the cluster, but the state of upload %d is answered %s", p.id, hr)
			}
			if failed++; failed > 12 {
				w.Logf("big#%d given up: %s", p.id, hr)
				return
			}
			sim.Sleep(time.Duration(1+rng.Intn(4)) * time.Second)
			continue
		}
		if f&bigProbe != 0 && rng.Intn(2) == 0 {
			at := cur + []int{-u.part, u.part, 1, -1}[rng.Intn(4)]
			if at >= 0 && at < size && !u.maybeOld {
				n := min(len(body)-at, u.part)
				r := w.Do("PATCH", a.Addr(), u.loc, body[at:at+n], reqOpt{hdr: map[string]string{"Range": fmt.Sprintf("bytes=%d-", at)}})
				if r.Err == nil && (r.Code/100 == 2 || r.Code != 416 && !faults) {
					w.Fail("wrong-place", "upload %d has %d bytes, but a part for byte %d is answered %s", p.id, cur, at, r)
				}
			}
		}
		n := u.part * (1 + rng.Intn(3))
		switch x := rng.Intn(10); {
		case f&bigSmall != 0 && x < 3:
			n = 1 + rng.Intn(u.part)
		case x < 3:
			n = u.part
		case x < 5:
			n = len(body)
		case x < 7:
			n = u.part + rng.Intn(2*u.part)
		}
		n = min(n, len(body)-cur)
		final := cur+n >= size
		ro := reqOpt{hdr: map[string]string{"Range": fmt.Sprintf("bytes=%d-", cur)}}
		part := body[cur : cur+n]
		whole, k := true, n
		if n > 0 && f&bigCut != 0 && rng.Intn(3) == 0 {
			k = rng.Intn(n)
			ro.body, ro.size = &cutReader{part, k}, n
			whole = false
		} else if f&bigTimeout != 0 && rng.Intn(3) == 0 {
			ro.timeout = time.Duration(1+rng.Intn(60)) * time.Millisecond
		}
		if cur+k >= size && (f&bigWrong == 0 || !o.checksum) {
			p.bad, p.cut = false, false // from now on it may be visible
		}
		u.sent = max(u.sent, min(size, cur+n))
		r := w.Do("PATCH", a.Addr(), u.loc, part, ro)
		w.Logf("big#%d part %d+%d of %d: %s", p.id, cur, n, size, r)
		if r.Err != nil && r.Code == 206 && !final {
			r = &Reply{Code: 206, Header: r.Header} // the answer tells a length it does not send
		}
		if r.Err != nil || r.Code/100 == 5 {
			if whole && ro.timeout == 0 && !faults && !u.maybeOld {
				w.Fail("part-refused", "nothing is wrong with the cluster, but a part (%d+%d of %d bytes) of upload %d is answered %s", cur, n, size, p.id, r)
			}
			if failed++; failed > 40 {
				return
			}
			u.maybeOld = true
			if !o.checksum || rng.Intn(2) == 0 {
				// without checksum nothing tells parts apart which race
				sim.Sleep(25 * time.Second)
			}
			continue
		}
		switch {
		case r.Code == 206:
			if cur+n >= size {
				w.Fail("bad-ack", "upload %d is sent completely (%d bytes), but the last part is answered %s", p.id, size, r)
			}
			if whole {
				u.low = max(u.low, (cur+n)/u.part*u.part)
			}
		case r.Code == 200:
			if cur+n != size || !whole {
				w.Fail("bad-ack", "a part (%d+%d of %d bytes) of upload %d is answered %s", cur, n, size, p.id, r)
			}
			if f&bigWrong != 0 && o.checksum {
				w.Fail("bad-upload-accepted", "upload %d of %s/%s with a wrong digest is acknowledged: %s", p.id, bk, name, r)
			}
			o.bigDone(p, r)
			return
		case r.Code == 403:
			if (f&bigWrong == 0 || !o.checksum) && cur+n <= size && !u.maybeOld {
				w.Fail("upload-refused", "upload %d of %s/%s is sent exactly, but answered %s", p.id, bk, name, r)
			}
			if !u.maybeOld {
				p.refused, p.bad = true, true
			}
			return
		default:
			if !faults && !u.maybeOld {
				w.Fail("part-refused", "nothing is wrong with the cluster, but a part (%d+%d of %d bytes) of upload %d is answered %s", cur, n, size, p.id, r)
			}
			if failed++; failed > 40 {
				return
			}
			sim.Sleep(time.Second)
		}
	}
	if !faults {
		w.Fail("no-progress", "upload %d does not end: %d of %d bytes", p.id, u.low, size)
	}
}

func (o *objWorld) bigDone(p *oPut, r *Reply) {
	w := o.w
	var v struct {
		Name, Bucket string
		Version      int
	}
	if e := r.JSON(&v); e != nil || v.Name != p.name || v.Bucket != p.bk || v.Version <= 0 {
		w.Fail("bad-ack", "upload %d of %s/%s is acknowledged with %s", p.id, p.bk, p.name, r)
	}
	p.bad, p.cut = false, false
	p.acked, p.ver = true, v.Version
	p.seqE, p.end = o.tick(), w.S.Now()
	w.Logf("big#%d done: v%d", p.id, p.ver)
	for _, x := range o.puts {
		if x != p && x.acked && x.bk == p.bk && x.name == p.name && x.ver == p.ver {
			w.Fail("version-reused", "uploads %d and %d of %s/%s are both acknowledged as version %d", x.id, p.id, p.bk, p.name, p.ver)
		}
	}
}
